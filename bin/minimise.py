"""Delta-debugging of simulator plans (operations, their arguments, faults)."""
import os, subprocess, tempfile, time


def parse_ops(text):
    head, ops = [], []
    for line in text.split("\n"):
        if not line.strip():
            continue
        if line.startswith("#") or line.startswith("prop ") or line.startswith("seed ") or line.startswith("set "):
            head.append(line)
        else:
            ops.append(line)
    return head, ops


# words (operation name included) an operation needs to be well formed
ARITY = {"new": 2, "destroy": 2, "clear": 2, "add": 2, "remove": 2, "flag": 4, "action": 4, "nargs": 4, "defaults": 3,
         "required": 4, "help": 4, "metavar": 4, "valid": 99, "dest": 99, "set": 4, "text": 4, "width": 6, "parse": 2,
         "ptwin": 2, "get": 99, "copy": 99, "dropcopy": 2, "fs": 2}


class Minimiser:
    """test(text) -> True when the plan still shows the violation"""

    def __init__(self, test, budget=60.0, max_tests=4000):
        self.test_ = test
        self.end = time.time() + budget
        self.left = max_tests
        self.tests = 0

    def test(self, head, ops):
        if time.time() > self.end or self.left <= 0:
            return False
        self.left -= 1
        self.tests += 1
        return self.test_("\n".join(head + ops) + "\n")

    def ddmin(self, head, ops):
        n = 2
        while len(ops) >= 2:
            size = max(1, len(ops) // n)
            reduced = False
            i = 0
            while i < len(ops):
                cand = ops[:i] + ops[i + size:]
                if cand and self.test(head, cand):
                    ops = cand
                    n = max(n - 1, 2)
                    reduced = True
                else:
                    i += size
                if time.time() > self.end:
                    return ops
            if not reduced:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        return ops

    def words(self, head, ops):
        """drop single trailing arguments and faults of each operation"""
        for k in range(len(ops)):
            w = ops[k].split(" ")
            i = len(w) - 1
            low = ARITY.get(w[0], 99)
            while i >= 1:
                if not w[i].startswith("!") and i < low:
                    i -= 1
                    continue
                cand = w[:i] + w[i + 1:]
                new = ops[:k] + [" ".join(cand)] + ops[k + 1:]
                if len(cand) >= 2 and self.test(head, new):
                    w, ops = cand, new
                i -= 1
        return ops

    def run(self, text):
        head, ops = parse_ops(text)
        while True:
            before = list(ops)
            ops = self.ddmin(head, ops)
            ops = self.words(head, ops)
            if ops == before or time.time() > self.end:
                break
        return "\n".join(head + ops) + "\n"
