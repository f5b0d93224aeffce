// Seeded plan generator. One profile per property; the reference model is
// stepped along so that most operations and command lines are meaningful, and
// a share of them is deliberately wrong.
#include "gen.h"

#include <algorithm>

namespace sim {

namespace {

struct Prof {
    int parsers = 1;
    int opsMin = 5, opsMax = 22;
    int args0Min = 2, args0Max = 6;  // arguments built at the start
    int wParse = 26, wAdd = 10, wFlag = 4, wAction = 8, wNargs = 7, wDefaults = 8, wRequired = 5, wHelp = 2, wMetavar = 2,
        wValid = 4, wDest = 4, wRemove = 4, wClear = 1, wDestroy = 1, wSet = 4, wText = 3, wWidth = 1, wGet = 0, wCopy = 1,
        wFs = 0;
    int invalid = 8;
    int pos = 35;
    int valid0 = 15, dest0 = 15, defaults0 = 35, required0 = 15;
    int helpLine = 4, exc = 85;
    int mutate = 35;
    int cbv = 6, cbd = 6, out = 0, st = 0, fsev = 0;
    int twin = 0;
    int path = 5, read = 0, nest = 0, num = 20, xform = 30;
    bool noAutoEdit = false;
    int odd = 3;  // unusual argv[0] / argc
    int repeatLine = 15;
    int adversarial = 25;
    bool strict = true;
    int moveHelp = 0;
    bool types = false;   // every destination type
    bool big = false;     // numbers that do not fit the small types
    // rare shapes, chosen per run
    bool large = false;   // many arguments, long command lines
    bool longText = false;  // values of hundreds to thousands of characters
    bool bytes = false;   // any byte but zero in values and texts
    bool many = false;    // many parses on one object
    bool alias = false;   // names, values, texts and settings drawn from one small pool
    bool huge = false;    // one thing some 256 times on a command line
    bool lists = false;   // long lists of names and defaults
    bool tangle = false;  // random names and tokens over a tiny alphabet
    bool oddNum = false;  // numerals whose reading only a comparison of builds or schedules can judge
    bool endless = false; // more values per argument than any command line has
    int longer = 4;  // names longer than the small string buffer
};

Prof profileOf(const std::string& p, Rng& r) {
    Prof f;
    if (p == "C01") {
        f.pos = 15;
        f.defaults0 = 45;
        f.wParse = 34;
        f.valid0 = f.dest0 = 6;
        f.wValid = f.wDest = 2;
        f.adversarial = 35;
        f.repeatLine = 10;
    }
    else if (p == "C02") {
        f.pos = 60;
        f.wParse = 34;
        f.valid0 = f.dest0 = 6;
        f.adversarial = 40;
        f.odd = 6;
        f.wSet = 8;
    }
    else if (p == "C03") {
        f.helpLine = 55;
        f.exc = 45;
        f.out = 20;
        f.moveHelp = 12;
        f.mutate = 20;
        f.wSet = 7;
        f.wText = 7;
        f.wRemove = 7;
        f.parsers = 2;
        f.wDest = 6;
    }
    else if (p == "C04") {
        f.twin = 85;
        f.noAutoEdit = true;
        f.wParse = 50;
        f.cbv = f.cbd = 25;
        f.valid0 = f.dest0 = 30;
        f.helpLine = 12;
        f.mutate = 45;
        f.exc = 95;
        f.defaults0 = 55;
    }
    else if (p == "C05") {
        f.invalid = 50;
        f.wAdd = 14;
        f.wFlag = 9;
        f.wAction = 14;
        f.wNargs = 12;
        f.wDefaults = 12;
        f.wRemove = 8;
        f.wParse = 16;
        f.moveHelp = 5;
        f.opsMax = 30;
    }
    else if (p == "C06") {
        f.wAdd = 16;
        f.wFlag = 9;
        f.wRemove = 12;
        f.wParse = 12;
        f.wDest = 9;
        f.wRequired = 9;
        f.wClear = 2;
        f.opsMax = 34;
        f.moveHelp = 6;
        f.args0Max = 9;
    }
    else if (p == "C07") {
        f.opsMin = 3;
        f.opsMax = 12;
        f.args0Max = 4;
        f.valid0 = f.dest0 = 25;
        f.wGet = 10;
        f.wCopy = 4;
        f.helpLine = 10;
        f.cbv = f.cbd = 3;
        f.parsers = 1;
        f.moveHelp = 4;
        f.longer = 30;
        f.wRemove = 8;
    }
    else if (p == "C08") {
        f.valid0 = 70;
        f.wValid = 12;
        f.wParse = 40;
        f.cbv = 25;
        f.mutate = 15;
        f.dest0 = 30;
        f.path = 8;
        f.num = 35;
        f.adversarial = 12;
    }
    else if (p == "C09") {
        f.dest0 = 80;
        f.wDest = 14;
        f.wParse = 40;
        f.cbd = 20;
        f.mutate = 15;
        f.valid0 = 25;
        f.num = 40;
        f.wFlag = 5;
        f.adversarial = 12;
    }
    else if (p == "C10") {
        f.parsers = 2;
        f.valid0 = f.dest0 = 50;
        f.wValid = 12;
        f.wDest = 10;
        f.wRemove = 9;
        f.wCopy = 6;
        f.wClear = 4;
        f.wDestroy = 4;
        f.exc = 60;
        f.helpLine = 15;
        f.cbv = f.cbd = 15;
    }
    else if (p == "C11") {
        f.valid0 = 75;
        f.path = 85;
        f.wFs = 14;
        f.wParse = 40;
        f.st = 35;
        f.fsev = 35;
        f.mutate = 12;
        f.adversarial = 5;
        f.wDest = 1;
        f.dest0 = 5;
    }
    else if (p == "C14") {
        f.wHelp = 9;
        f.wMetavar = 8;
        f.wText = 10;
        f.wWidth = 8;
        f.wRequired = 8;
        f.wDefaults = 12;
        f.wParse = 14;
        f.wFlag = 7;
        f.helpLine = 15;
        f.invalid = 15;
        f.args0Max = 8;
        f.opsMax = 28;
        f.wGet = 3;
    }
    else if (p == "C15") {
        f.dest0 = 40;
        f.wDest = 8;
        f.wText = 6;
        f.wHelp = 5;
        f.wMetavar = 5;
        f.cbv = f.cbd = 12;
        f.invalid = 20;
        f.odd = 8;
        f.adversarial = 35;
    }
    else if (p == "C16") {
        f.wClear = 16;
        f.twin = 70;
        f.noAutoEdit = true;
        f.wText = 7;
        f.wWidth = 5;
        f.wSet = 8;
        f.valid0 = f.dest0 = 25;
        f.cbv = f.cbd = 12;
        f.exc = 60;
        f.helpLine = 12;
        f.opsMax = 34;
    }
    else if (p == "C18") {
        f.required0 = 45;
        f.wRequired = 10;
        f.wParse = 40;
        f.mutate = 55;
        f.helpLine = 10;
        f.valid0 = 30;
        f.adversarial = 35;
    }
    else if (p == "C19") {
        f.valid0 = f.dest0 = 55;
        f.read = 45;
        f.nest = 25;
        f.wParse = 40;
        f.mutate = 15;
        f.helpLine = 6;
        f.adversarial = 12;
        f.wRemove = 2;
    }
    else if (p == "C20") {
        f.wGet = 6;
        f.wCopy = 8;
        f.valid0 = 25;
        f.defaults0 = 55;
        f.num = 40;
        f.wParse = 36;
    }
    else if (p == "C22") {
        f.lists = true;
        f.wAdd = 14;
        f.wDefaults = 16;
        f.wRemove = 10;
        f.wParse = 12;
        f.defaults0 = 70;
        f.valid0 = 10;
        f.dest0 = 5;
        f.wDest = 1;
    }
    else if (p == "C12") {
        f.opsMin = 2;
        f.opsMax = 8;
        f.args0Max = 4;
        f.valid0 = f.dest0 = 30;
        f.cbv = f.cbd = 12;
        f.helpLine = 14;
        f.exc = 100;
        f.parsers = 1;
        f.read = 10;
        f.nest = 6;
        f.wCopy = 3;
        f.wGet = 4;
        f.wClear = 2;
        f.wDestroy = 3;
        f.wParse = 36;
    }
    else if (p == "C13") {
        f.opsMin = 0;
        f.opsMax = 3;
        f.args0Min = 3;
        f.args0Max = 7;
        f.valid0 = f.dest0 = 25;
        f.cbv = f.cbd = 4;
        f.helpLine = 5;
        f.exc = 100;
        f.parsers = 1;
        f.mutate = 12;
        f.adversarial = 12;
        f.defaults0 = 55;
        f.num = 40;
        f.wCopy = f.wGet = f.wClear = f.wDestroy = f.wRemove = 0;
    }
    else if (p == "C17") {
        f.valid0 = f.dest0 = 25;
        f.wParse = 36;
        f.cbv = f.cbd = 12;
        f.helpLine = 12;
        f.exc = 70;
        f.parsers = 2;
        f.read = 12;
        f.nest = 6;
    }
    if (p == "C08" || p == "C09" || p == "C19" || p == "C20" || p == "C04" || p == "C15" || p == "C12" || p == "C13" || p == "C17") f.types = true;
    if (p == "C08" || p == "C09" || p == "C20") f.big = true;
    if (p == "C12" || p == "C13" || p == "C17" || (p == "C20" && r.chance(40))) f.oddNum = true;
    bool heavy = p != "C07" && p != "C12" && p != "C13";
    f.large = heavy && r.chance(4);
    f.longText = r.chance(4);
    f.bytes = r.chance(8);
    f.many = heavy && r.chance(2);
    f.alias = r.chance(8);
    f.huge = heavy && r.chance(2);
    f.endless = (p == "C01" || p == "C02" || p == "C18" || p == "C17") && r.chance(3);
    if (f.endless) f.wNargs = 30;
    f.tangle = r.chance(12);
    if (f.large) {
        f.args0Min = 8;
        f.args0Max = 36;
    }
    // swarm: every run leaves some kinds of operation out
    int* ws[] = {&f.wFlag, &f.wAction, &f.wNargs, &f.wDefaults, &f.wRequired, &f.wHelp, &f.wMetavar, &f.wValid,
                 &f.wDest, &f.wRemove, &f.wSet, &f.wText, &f.wWidth, &f.wGet, &f.wCopy};
    for (int* w : ws)
        if (r.chance(18)) *w = 0;
    if (p != "C16" && r.chance(60)) f.wClear = 0;
    if (p != "C10" && r.chance(60)) f.wDestroy = 0;
    if (r.chance(25)) f.opsMax += f.opsMax / 2;
    if (r.chance(20)) f.adversarial = r.range(0, 60);
    if (r.chance(20)) f.mutate = r.range(0, 70);
    return f;
}

const Strs SHORTS = {"-a", "-b", "-c", "-d", "-x", "-y", "-z", "-n", "-v", "-h", "-A", "-1"};
const Strs LONGS = {"--alpha", "--beta", "--gamma", "--abc", "--ab", "--al", "--n", "--version", "--help", "--x-ray", "--number",
                     "--a-rather-long-option-name", "--another-option-with-a-long-name"};
const Strs LONGER = {"--a-rather-long-option-name", "--another-option-with-a-long-name", "--configuration-directory"};
const Strs POSN = {"pos", "file", "name", "alpha", "a", "zeta", "my arg", "b", "a rather long positional"};
const Strs PLAIN = {"v1", "v2", "hello", "abc", "x1", "two words", "value", "w", "caf\xc3\xa9", "q.txt", "3rd"};
const Strs NUMS = {"12", "-3", "2.5", "1e1", "100", "0", "7", "-0.5"};
const Strs BIG = {"130", "255", "300", "40000", "65535", "70000", "3000000000", "-40000", "1e12", "123456789012", "0.1", "1e-3"};
const Strs ODDNUM = {" 3", "+3", "0x10", "3abc", ".5", "5.", "1e", "-0", "007", "1e+1", "12 ", "0x", "++3", "1,5", "1e-400", "-.25e1"};
const Strs NASTY = {"", "-", "--", "a=b", "=", "-a", "--alpha", "--alpha=3", "-abc", "-h", "--help", "--beta=", "-b", "-x", "--abc",
                    "-ab", "-z9", "--unknown", "-k", "-a=1", "---", "-=", "--=", "=x", "-bc", "--x-ray", "-1", "-n=", "-alpha",
                    "-al=4", "-version", "--version", "-v", "-ba", "-cab"};
const Strs PATHS = {"/p/f1", "/p/d1", "/p/o1", "/p/lf", "/p/ld", "/p/loop", "/p/none", "", "rel/f", "/p/dangling", "/p/f2", "/p/d2"};

struct Gen {
    Rng r;
    Prof f;
    std::string prop;
    Plan plan;
    World w;
    std::map<std::string, MParser> ps;
    std::set<std::string> live;
    std::map<std::string, std::set<int> > autoIds;
    int nextValid = 1, nextDest = 1, nextCopy = 1;
    std::vector<std::pair<int, VSpec> > lentPool;
    Strs copies;
    Strs lastLine;
    bool fsInit = false;

    Gen(const std::string& p, uint64_t seed) : r(seed), prop(p) {
        f = profileOf(p, r);
        plan.prop = p;
    }

    // ------------------------------------------------------------ emission
    Exc emit(const Op& o) {
        plan.ops.push_back(o);
        MParser& m = ps[o.a[0]];
        std::vector<int> freed;
        Exc e;
        if (o.name == "new") {
            m = MParser();
            m.w = &w;
            live.insert(o.a[0]);
        }
        else if (o.name == "destroy") {
            m.clear(&freed);
            live.erase(o.a[0]);
        }
        else if (o.name == "clear") m.clear(&freed);
        else if (isConfigOp(o.name)) {
            if (o.a.size() > 1 && o.a[1] == "@" && !m.last) return e;
            e = applyModel(w, m, o, &freed);
        }
        else if (o.name == "parse" || o.name == "ptwin") {
            MParser::Faults fl;
            std::string s;
            if (o.fault("cbv", &s)) {
                fl.cbv = atoi(s.c_str());
                fl.cbvKind = s.substr(s.find(':') + 1);
            }
            if (o.fault("cbd", &s)) {
                fl.cbd = atoi(s.c_str());
                fl.cbdKind = s.substr(s.find(':') + 1);
            }
            bool had = m.help != nullptr;
            ParseOut po = m.parse(Strs(o.a.begin() + 1, o.a.end()), fl, [](const VSpec&, Strs&, Exc* e2) {
                *e2 = Exc();
                return true;
            });
            if (!had && m.help) autoIds[o.a[0]].insert(m.help->id);
            if (po.exited) m.clear(&freed);
        }
        return e;
    }

    std::string parserId() {
        if (live.empty()) {
            emit(Op("new", {"P0"}));
            return "P0";
        }
        Strs l(live.begin(), live.end());
        return r.pick(l);
    }

    // ------------------------------------------------------------- values
    // in some runs the same few texts appear everywhere
    Strs shared;
    const std::string& alike() {
        if (shared.empty())
            for (int i = 0; i < 3; ++i)
                shared.push_back(r.pick(Strs{"file", "name", "alpha", "a", "prog", "--alpha", "-a", "12", "tool", "my arg", "help",
                                             "show this help message and exit", "h", "true", "a b", "-h"}));
        return r.pick(shared);
    }
    std::string plainValue() {
        if (f.alias && r.chance(60)) return alike();
        if (r.chance(6)) return std::string((size_t)r.range(16, 90), (char)('a' + r.below(26)));
        if (f.longText && r.chance(20)) {
            std::string s((size_t)r.pick(std::vector<int>{127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4097, 9000}), 'x');
            for (size_t i = 0; i < s.size(); i += 7) s[i] = (char)('a' + (i / 7) % 26);
            return s;
        }
        if (f.bytes && r.chance(50)) {
            std::string s;
            for (int i = r.range(1, 9); i > 0; --i) s += (char)r.range(1, 255);
            if (s[0] == '-' || (s[0] >= '0' && s[0] <= '9') || s[0] == '+' || s[0] == '.' || isspace((unsigned char)s[0]) || strchr("iInN", s[0])) s[0] = '~';
            for (auto& c : s)
                if (c == ':' || c == ';') c = '_';
            return s;
        }
        return r.chance(f.num) ? number() : r.pick(PLAIN);
    }
    std::string tangled(int lo, int hi) {
        static const char* const alpha = "--==aabbcc1x ";
        std::string s;
        for (int i = r.range(lo, hi); i > 0; --i) s += alpha[r.below(13)];
        return s;
    }
    std::string nasty() {
        if (f.tangle && r.chance(60)) return tangled(0, 6);
        return r.pick(NASTY);
    }
    std::string number() {
        if (f.oddNum && r.chance(25)) return r.pick(ODDNUM);
        return f.big && r.chance(25) ? r.pick(BIG) : r.pick(NUMS);
    }
    std::string valueFor(const MArg& a) {
        if (r.chance(f.adversarial)) return r.chance(70) ? nasty() : (a.names.empty() ? "" : r.pick(a.names));
        if (a.valid >= 0 && w.valids.count(a.valid)) {
            const VSpec& s = w.valids[a.valid];
            if (r.chance(88)) {
                if (s.kind == "num" || s.kind == "minmax") return number();
                if (s.kind == "choice") return r.chance(90) ? r.pick(s.p) : r.pick(PLAIN);
                if (s.kind == "path") {
                    if (r.chance(75)) return s.p[0] == "dir" ? (r.chance(70) ? "/p/d1" : "/p/ld") : r.chance(70) ? "/p/f1" : "/p/lf";
                    return r.pick(PATHS);
                }
                if (s.kind == "falseif" || s.kind == "pveif" || s.kind == "rtif")
                    return r.chance(12) ? "no!" + r.pick(PLAIN) : plainValue();
            }
        }
        return plainValue();
    }
    Strs valuesFor(const MArg& a) {
        Strs v;
        int n = 0;
        switch (a.kind) {
            case K_SIMPLE:
            case K_MULTI:
            case K_POS1:
                n = 1;
                break;
            case K_NUMBER:
            case K_MULTIN:
            case K_POSN:
                n = (int)std::min<size_t>(a.nargs, 60);
                break;
            case K_INF:
            case K_MULTIINF:
                n = r.range(0, f.large && r.chance(20) ? 40 : 4);
                break;
            case K_POSINF:
                n = r.range(1, f.large && r.chance(20) ? 70 : 4);
                break;
            case K_MULTININF:
                n = (int)std::min<size_t>(a.nargs, 60) * r.range(0, 3);
                break;
            case K_POSINFN:
                n = (int)std::min<size_t>(a.nargs, 60) * r.range(1, 3);
                break;
            default:
                break;
        }
        if (n > 60) n = 60;
        for (int i = 0; i < n; ++i) v.push_back(valueFor(a));
        if (n > 0 && r.chance(4)) v.pop_back();
        else if (r.chance(3)) v.push_back(valueFor(a));
        return v;
    }

    // -------------------------------------------------------- command lines
    Strs spell(const MParser& m, const MArg& a, const std::string& name) {
        Strs t;
        Strs v = valuesFor(a);
        bool one = v.size() == 1 && (a.kind == K_SIMPLE || a.kind == K_INF || a.kind == K_MULTI || a.kind == K_MULTIINF);
        if (shortOpt(name)) {
            std::string pre = "-";
            if (r.chance(25)) {
                Strs flags;
                for (auto& kv : m.idx)
                    if (shortOpt(kv.first) && kv.first.size() == 2 && (kv.second->kind == K_BOOL || kv.second->kind == K_REV))
                        flags.push_back(kv.first.substr(1));
                for (int i = 0; !flags.empty() && i < r.range(1, 3); ++i) pre += r.pick(flags);
            }
            std::string c = pre + name.substr(1);
            if (one && r.chance(60)) {
                int k = r.range(0, 2);
                if (k == 0) t = {c + v[0]};
                else if (k == 1) t = {c + "=" + v[0]};
                else t = {c, v[0]};
            }
            else {
                t.push_back(c);
                t.insert(t.end(), v.begin(), v.end());
            }
            if (r.chance(3)) t[0] += "=" + plainValue();
        }
        else {
            std::string c = m.alt && r.chance(60) ? name.substr(1) : name;
            if (one && r.chance(50)) t = {c + "=" + v[0]};
            else {
                t.push_back(c);
                t.insert(t.end(), v.begin(), v.end());
            }
            if (r.chance(3)) t[0] += "=" + plainValue();
        }
        return t;
    }

    Strs line(MParser& m) {
        if (!lastLine.empty() && r.chance(f.repeatLine)) return lastLine;
        Strs t;
        std::string prog = "prog";
        if (r.chance(15)) prog = r.pick(Strs{"/usr/bin/some-tool", "./a.out", "x", "a/b/c", "/tool", "dir with space/my tool", ".."});
        if (f.alias && r.chance(50)) prog = alike();
        if (r.chance(f.odd)) {
            int k = r.range(0, 3);
            if (k == 0) return Strs();
            if (k == 1) prog = "";
            else if (k == 2) prog = "--";
            else prog = "dir/";
        }
        std::vector<Strs> groups;
        int density = r.pick(std::vector<int>{20, 45, 45, 70, 95});
        for (auto& a : m.order) {
            if (isPos(a->kind)) continue;
            if (a->kind == K_HELP || a->kind == K_VERSION) continue;
            if (!r.chance(a->required ? 93 : density)) continue;
            int reps = 1;
            if (a->action == A_APPEND || a->action == A_EXTEND) reps = r.range(1, 3);
            else if (r.chance(12)) reps = 2;
            for (int i = 0; i < reps; ++i) groups.push_back(spell(m, *a, r.pick(a->names)));
        }
        for (size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[r.below((unsigned)i)]);
        // positional values, in order, spread between the options
        std::vector<Strs> pos;
        for (auto& a : m.order)
            if (isPos(a->kind) && r.chance(a->required ? 95 : 75)) pos.push_back(valuesFor(*a));
        int extra = r.chance(20) ? r.range(1, 3) : 0;
        for (int i = 0; i < extra; ++i) pos.push_back(Strs(1, plainValue()));
        std::vector<Strs> seq;
        bool endMark = r.chance(18);
        if (endMark || r.chance(35)) {
            // all positionals last (after "--" when given)
            seq = groups;
            size_t at = seq.size();
            if (endMark) {
                if (r.chance(25)) at = r.below((unsigned)seq.size() + 1);
                seq.insert(seq.begin() + (long)at, Strs(1, "--"));
            }
            if (r.chance(30)) {
                for (auto& p : pos) seq.insert(seq.begin() + r.below((unsigned)seq.size() + 1), p);
            }
            else seq.insert(seq.end(), pos.begin(), pos.end());
        }
        else {
            size_t gi = 0, pi = 0;
            while (gi < groups.size() || pi < pos.size()) {
                if (pi < pos.size() && (gi >= groups.size() || r.chance(55))) seq.push_back(pos[pi++]);
                else seq.push_back(groups[gi++]);
            }
        }
        if (r.chance(f.helpLine)) {
            Strs n;
            if (m.help) n.insert(n.end(), m.help->names.begin(), m.help->names.end());
            else {
                if (!m.idx.count("-h")) n.push_back("-h");
                if (!m.idx.count("--help")) n.push_back("--help");
            }
            if (m.version && (n.empty() || r.chance(50))) n = m.version->names;
            if (!n.empty()) seq.insert(seq.begin() + r.below((unsigned)seq.size() + 1), Strs(1, r.pick(n)));
        }
        if (f.huge && !seq.empty() && r.chance(60)) {
            const int n = r.pick(std::vector<int>{255, 256, 257, 258, 300});
            Strs flags;
            for (auto& a : m.order)
                if (a->kind == K_BOOL || a->kind == K_REV)
                    for (auto& x : a->names)
                        if (x.size() == 2) flags.push_back(x);
            size_t at = r.below((unsigned)seq.size());
            if (!flags.empty() && r.chance(40)) seq.insert(seq.begin() + (long)at, Strs(1, "-" + std::string((size_t)n, r.pick(flags)[1])));
            else if (seq[at].empty()) {
            }
            else if (r.chance(60)) {
                Strs g = seq[at];
                for (size_t k = seq[at].size(); k < (size_t)n * std::min<size_t>(2, seq[at].size()); k += g.size()) seq.insert(seq.begin() + (long)at, g);
            }
            else {
                std::string x = seq[at].back();
                seq[at].insert(seq[at].end(), (size_t)n - 1, x);
            }
        }
        t.push_back(prog);
        for (auto& g : seq) t.insert(t.end(), g.begin(), g.end());
        size_t most = f.huge ? 700 : f.large ? 260 : 40;
        if (t.size() > most) t.resize(most);
        if (r.chance(f.mutate)) {
            int k = r.range(1, 2);
            while (k-- > 0) mutate(m, t);
        }
        return t;
    }

    void mutate(const MParser& m, Strs& t) {
        size_t n = t.size();
        switch (r.below(9)) {
            case 0:
                if (n > 1) t.erase(t.begin() + 1 + r.below((unsigned)n - 1));
                break;
            case 1:
                if (n > 1) {
                    std::string x = t[1 + r.below((unsigned)n - 1)];
                    t.insert(t.begin() + 1 + r.below((unsigned)n), x);
                }
                break;
            case 2:
                if (n > 2) std::swap(t[1 + r.below((unsigned)n - 1)], t[1 + r.below((unsigned)n - 1)]);
                break;
            case 3:
            case 4:
                t.insert(t.begin() + 1 + r.below((unsigned)n), nasty());
                break;
            case 5:
                if (n > 1) t.resize(1 + r.below((unsigned)n));
                break;
            case 6:
                if (n > 1) {
                    std::string& x = t[1 + r.below((unsigned)n - 1)];
                    if (r.chance(40)) x += "=" + plainValue();
                    else if (r.chance(50) && !x.empty()) x.erase(x.begin() + r.below((unsigned)x.size()));
                    else x = "-" + x;
                }
                break;
            case 7:
                if (!m.order.empty()) {
                    auto& a = *m.order[r.below((unsigned)m.order.size())];
                    std::string x = r.pick(a.names);
                    if (r.chance(40)) x += "=" + plainValue();
                    t.insert(t.begin() + 1 + r.below((unsigned)n), x);
                }
                break;
            default:
                if (n > 1) t.push_back(t[1 + r.below((unsigned)n - 1)]);
                break;
        }
    }

    // ------------------------------------------------------------ operations
    Strs freeNames(MParser& m, bool positional) {
        Strs out;
        if (positional) {
            for (auto& n : POSN)
                if (!m.idx.count(n)) out.push_back(n);
            if (f.large)
                for (int i = 0; i < 30; ++i)
                    if (!m.idx.count("pos" + std::to_string(i))) out.push_back("pos" + std::to_string(i));
            if (out.empty()) return out;
            return Strs(1, r.pick(out));
        }
        Strs pool;
        for (auto& n : SHORTS)
            if (!m.idx.count(n) && (n != "-h" || r.chance(12)) && (n != "-1" || r.chance(30))) pool.push_back(n);
        Strs pool2;
        for (auto& n : LONGS)
            if (!m.idx.count(n) && (n != "--help" || r.chance(12))) pool2.push_back(n);
        if (f.large || f.tangle || f.lists) {
            for (char c = 'a'; c <= 'z'; ++c) {
                std::string n = std::string("-") + (!f.tangle ? c : (char)('a' + (c - 'a') % 4));
                if (!m.idx.count(n) && n != "-h") pool.push_back(n);
            }
            for (int i = 0; (f.large || f.lists) && i < 40; ++i)
                if (!m.idx.count("--opt" + std::to_string(i))) pool2.push_back("--opt" + std::to_string(i));
            for (int i = 0; f.tangle && i < 20; ++i) {
                std::string n = "--";
                for (int j = r.range(1, 4); j > 0; --j) n += "aabc-1"[r.below(6)];
                if (!m.idx.count(n)) pool2.push_back(n);
            }
        }
        int k = r.below(100) < 60 ? 1 : r.range(2, f.large ? 6 : 3);
        if (f.lists && r.chance(60)) k = r.range(1, 22);
        for (int i = 0; i < k; ++i) {
            if (r.chance(f.longer)) {
                std::string n = r.pick(LONGER);
                if (!m.idx.count(n) && std::find(out.begin(), out.end(), n) == out.end()) out.push_back(n);
                continue;
            }
            Strs& p = r.chance(60) ? pool : pool2;
            if (p.empty()) continue;
            std::string n = r.pick(p);
            if (std::find(out.begin(), out.end(), n) == out.end() || r.chance(20)) out.push_back(n);
        }
        // -h and --help together only make sense for a help option
        return out;
    }

    MArgP someArg(MParser& m, const std::string& pid) {
        std::vector<MArgP> c;
        for (auto& a : m.order)
            if (!f.noAutoEdit || !autoIds[pid].count(a->id)) c.push_back(a);
        if (c.empty()) return MArgP();
        return r.pick(c);
    }

    std::string refOf(MParser& m, const MArgP& a) {
        if (m.last == a && r.chance(40)) return "@";
        return r.pick(a->names);
    }

    // a text that is no flag
    std::string malformed() {
        if (r.chance(50)) return r.pick(Strs{"-", "--", "", "-ab", "-xyz", "plain", "-toolong"});
        auto any = [&] {
            static const std::string odd = " -=_.,+*/?!1aZ\t\x7f\xe9\"'";
            return r.chance(60) ? odd[r.below((unsigned)odd.size())] : (char)r.range(33, 126);
        };
        std::string s = r.chance(85) ? "-" : std::string(1, any());
        if (s != "-") return s == " " ? s + "-a" : s[0] == '-' ? "-" : s + r.pick(Strs{"", "a", "-", "--a", "-a"});
        char c = any();
        s += c == '-' ? '+' : c;
        for (int i = r.pick(std::vector<int>{1, 1, 1, 2, 5}); i > 0; --i) s += any();
        return s;
    }
    Op badAdd(const std::string& pid, MParser& m) {
        Strs n;
        switch (r.below(7)) {
            case 0:
                return Op("add", {pid});
            case 1:
                n = {malformed()};
                if (!n[0].empty() && n[0][0] != '-' ) n.push_back(n[0]);
                break;
            case 2:
                n = {"noflag", r.pick(SHORTS)};
                break;
            case 3:
                n = freeNames(m, false);
                n.push_back(malformed());
                break;
            default:
                n = freeNames(m, false);
                if (!m.idx.empty()) {
                    auto it = m.idx.begin();
                    std::advance(it, r.below((unsigned)m.idx.size()));
                    n.insert(n.begin() + r.below((unsigned)n.size() + 1), it->first);
                    if (r.chance(30)) n = {it->first};
                }
                else n = {"-"};
                break;
        }
        Op o("add", {pid});
        o.a.insert(o.a.end(), n.begin(), n.end());
        return o;
    }

    Strs defaultsFor(const MArg& a) {
        Strs d;
        size_t n = 1;
        if (isScalar(a.kind)) n = 1;
        else if (a.kind == K_NUMBER || a.kind == K_POSN) n = std::min<size_t>(a.nargs, 60);
        else if (isNested(a.kind)) n = std::min<size_t>(a.nargs, 60) * (size_t)r.range(1, f.lists ? 6 : 2);
        else n = (size_t)r.range(1, f.lists ? 22 : 3);
        if (r.chance(8)) n = 0;
        if (r.chance(f.invalid)) n += (size_t)r.range(1, 2);
        for (size_t i = 0; i < n; ++i) d.push_back(f.alias && r.chance(60) ? alike() : r.chance(80) ? "d" + std::to_string(i) : r.chance(50) ? r.pick(NUMS) : plainValue());
        return d;
    }

    bool scalarDest(const MArg& a) const {
        if (a.dest < 0) return false;
        auto it = w.dests.find(a.dest);
        return it != w.dests.end() && it->second.spec.type[0] != 'v';
    }

    void opAction(const std::string& pid, MParser& m, const MArgP& a, const std::string& ref) {
        int act;
        if (r.chance(f.invalid)) act = r.range(0, 7);
        else if (isPos(a->kind)) act = r.chance(60) ? A_INFINITE : A_NONE;
        else act = r.pick(std::vector<int>{A_NONE, A_TRUE, A_TRUE, A_FALSE, A_APPEND, A_APPEND, A_EXTEND, A_EXTEND, A_INFINITE, A_INFINITE});
        if (!isPos(a->kind) && r.chance(5)) act = A_VERSION;
        if (!isPos(a->kind) && r.chance(3 + f.moveHelp)) act = A_HELP;
        if (a->nargs > 6 && act != A_NONE) return;
        if (scalarDest(*a) && (act == A_APPEND || act == A_EXTEND || act == A_INFINITE)) return;
        emit(Op("action", {pid, ref, ACT_NAMES[act]}));
    }
    void opNargs(const std::string& pid, MParser& m, const MArgP& a, const std::string& ref) {
        int n = r.pick(std::vector<int>{1, 1, 2, 2, 3, 43, 4});
        if (r.chance(f.large ? 15 : 3)) n = r.pick(std::vector<int>{5, 7, 12});
        if (r.chance(f.invalid)) n = r.range(0, 3);
        if (!isPos(a->kind) && r.chance(8)) n = 0;
        if (n == 43 && a->action != A_NONE) n = 2;
        if (scalarDest(*a) && n > 1) return;
        // a text of its own spares the rendering of that many names
        if (f.endless && !m.usageText.empty() && a->kind != K_BOOL && r.chance(60)) {
            emit(Op("nargs", {pid, ref, r.pick(Strs{"18446744073709551615", "18446744073709551614", "18446744073709551615", "9223372036854775808",
                                                    "4294967296", "4294967295", "4294967294", "2147483648", "2147483647", "65536"})}));
            return;
        }
        emit(Op("nargs", {pid, ref, std::to_string(n)}));
    }
    void opDefaults(const std::string& pid, MParser& m, const MArgP& a, const std::string& ref) {
        Op o("defaults", {pid, ref});
        Strs d = defaultsFor(*a);
        o.a.insert(o.a.end(), d.begin(), d.end());
        emit(o);
    }
    void opValid(const std::string& pid, MParser& m, const MArgP& a, const std::string& ref) {
        if (r.chance(6)) {
            emit(Op("valid", {pid, ref, "none", "1", "none"}));
            return;
        }
        if (!lentPool.empty() && r.chance(15)) {
            auto& l = r.pick(lentPool);
            Op o("valid", {pid, ref, std::to_string(l.first), "0", l.second.kind});
            o.a.insert(o.a.end(), l.second.p.begin(), l.second.p.end());
            emit(o);
            return;
        }
        VSpec s;
        if (r.chance(f.path)) {
            s.kind = "path";
            s.p = {r.pick(Strs{"all", "dir", "file"})};
        }
        else if (r.chance(f.read)) s.kind = "read";
        else if (r.chance(f.nest)) {
            s.kind = "nest";
            s.p = {std::to_string(r.below(40))};
        }
        else if (r.chance(f.num)) {
            if (r.chance(50)) s.kind = "num";
            else {
                s.kind = "minmax";
                s.p = {r.pick(Strs{"0", "-5", "10", "-100.5"}), r.pick(Strs{"50", "100", "3", "0"})};
                if (r.chance(15)) std::swap(s.p[0], s.p[1]);
            }
        }
        else if (r.chance(f.xform)) {
            s.kind = r.pick(Strs{"upper", "rev", "set", "grow", "shrink"});
            if (s.kind == "set") s.p = {"t"};
        }
        else {
            s.kind = r.pick(Strs{"accept", "accept", "false", "falseif", "pveif", "rtif", "choice"});
            if (s.kind == "false" && r.chance(60)) s.kind = "accept";
            if (s.kind == "choice") s.p = r.pick(std::vector<Strs>{{"v1", "v2", "hello", "d0", "12"}, {"v1", "v2", "hello", "d0", "12"}, {"hello"}, {"", "v1", "V1", "v"}, {"v1", "v1", "12", "two words", "-3", "2.5"}});
        }
        int id = nextValid++;
        bool owned = r.chance(75);
        Op o("valid", {pid, ref, std::to_string(id), owned ? "1" : "0", s.kind});
        o.a.insert(o.a.end(), s.p.begin(), s.p.end());
        if (!owned) lentPool.push_back(std::make_pair(id, s));
        emit(o);
    }
    std::string pickType(Strs l) {
        // long long is no type of C++98
        if (f.oddNum) l.erase(std::remove_if(l.begin(), l.end(), [&](const std::string& t) {
            // and what becomes of a negative number in an unsigned type differs between compilers
            return t.find("llong") != std::string::npos || (prop == "C17" && t.find('u') != std::string::npos);
        }), l.end());
        return r.pick(l);
    }
    void opDest(const std::string& pid, MParser& m, const MArgP& a, const std::string& ref) {
        std::string t, cb;
        bool list = isFlat(a->kind) || isNested(a->kind);
        int form = list ? r.range(1, 2) : r.pick(std::vector<int>{0, 0, 0, 1, 2});
        if (form == 0 && f.types && r.chance(30)) t = pickType(Strs{"uchr", "ushort", "uint", "ulong", "llong", "ullong", "ldbl"});
        else if (form == 0) t = r.pick(Strs{"str", "str", "int", "long", "short", "chr", "bool", "dbl", "flt", "cstr", "cstr", "chr8", "chr8", "chr1", "chr2", "chr16", "chr64"});
        if (t == "chr8" && r.chance(60)) t = r.pick(Strs{"chr3", "chr4", "chr5", "chr6", "chr7"});
        else if (form == 1 && f.types && r.chance(45))
            t = pickType(Strs{"vshort", "vushort", "vuchr", "vuint", "vulong", "vllong", "vullong", "vflt", "vldbl", "vchr"});
        else if (form == 2 && f.types && r.chance(45)) t = pickType(Strs{"vvlong", "vvuint", "vvushort", "vvflt", "vvbool", "vvchr", "vvullong"});
        else if (form == 1) t = r.pick(Strs{"vstr", "vstr", "vint", "vlong", "vdbl", "vbool", "vcstr", "vcstr"});
        else t = r.pick(Strs{"vvstr", "vvint", "vvdbl", "vvcstr"});
        bool capable = t == "str" || t == "vstr" || t == "vvstr";
        if (capable && r.chance(30)) cb = "cb";
        if (r.chance(f.read)) {
            t = form == 0 ? "str" : form == 1 ? "vstr" : "vvstr";
            cb = "read";
        }
        else if (r.chance(f.nest)) {
            t = form == 0 ? "str" : form == 1 ? "vstr" : "vvstr";
            cb = "nest" + std::to_string(r.below(40));
        }
        if (r.chance(5)) {
            t = form == 0 ? "unsup" : form == 1 ? "vunsup" : "vvunsup";
            cb = r.chance(60) ? "cb" : "";
        }
        Op o("dest", {pid, ref, std::to_string(nextDest++), t});
        if (!cb.empty()) o.a.push_back(cb);
        emit(o);
    }
    std::string longText() {
        Strs words = {"lorem", "ipsum", "a", "the-quick-brown-fox-jumps-over", "of", "value", "configuration", "x", "to", "help"};
        std::string s;
        if (f.alias && r.chance(50)) return alike();
        int n = r.pick(std::vector<int>{1, 3, 6, 14, 30, 45});
        for (int i = 0; i < n; ++i) {
            s += r.pick(words);
            if (i + 1 < n) s += r.chance(4) ? "\n" : r.chance(6) ? "  " : " ";
        }
        if (r.chance(5)) s += std::string(90, 'y');
        if (f.longText && r.chance(25)) s += std::string((size_t)r.pick(std::vector<int>{300, 1024, 5000}), 'z');
        if (f.bytes && r.chance(40)) s += " " + plainValue() + r.pick(Strs{"", "\t", "\r\n", "\x1b[1m"});
        if (r.chance(5)) s += "\n";
        if (r.chance(6)) s = "";
        return s;
    }

    void parseOp(const std::string& pid) {
        MParser& m = ps[pid];
        if (m.helpBlocked()) {
            // outside the listed finding: make room for a help option
            MArgP h = m.find(r.chance(50) ? "-h" : "--help");
            if (r.chance(60) && !scalarDest(*h)) emit(Op("action", {pid, h->names[0], "HELP"}));
            else emit(Op("remove", {pid, r.chance(50) ? "-h" : "--help"}));
        }
        Op o(r.chance(f.twin) ? "ptwin" : "parse", {pid});
        Strs l = line(m);
        lastLine = l;
        o.a.insert(o.a.end(), l.begin(), l.end());
        static const Strs kinds = {"rt", "int", "pve", "ae", "ba", "he"};
        bool hasV = false, hasD = false;
        for (auto& a : m.order) {
            hasV = hasV || a->valid >= 0;
            hasD = hasD || (a->dest >= 0 && !w.dests[a->dest].spec.cb.empty());
        }
        if (hasV && r.chance(f.cbv)) o.f.push_back("cbv=" + std::to_string(r.range(1, 3)) + ":" + r.pick(kinds));
        if (hasD && r.chance(f.cbd)) o.f.push_back("cbd=" + std::to_string(r.range(1, 2)) + ":" + r.pick(kinds));
        if (r.chance(f.out)) o.f.push_back("out=" + std::to_string(r.pick(std::vector<int>{0, 1, 5, 20, 60, 200})));
        static const Strs errs = {"EIO", "EACCES", "ENOENT", "ELOOP", "ENAMETOOLONG", "ENOTDIR", "EOVERFLOW", "ENOMEM", "EINTR"};
        if (r.chance(f.st)) {
            if (r.chance(25)) o.f.push_back("stp=" + std::to_string(r.range(1, 4)) + ":" + r.pick(errs));
            else
                for (int i = r.range(1, 2); i > 0; --i)
                    o.f.push_back("st=" + std::to_string(r.range(1, 5)) + ":" + r.pick(errs));
        }
        if (r.chance(f.fsev)) {
            for (int i = r.range(1, 3); i > 0; --i)
                o.f.push_back("fs=" + std::to_string(r.range(1, 6)) + ":" + fsEvent());
        }
        emit(o);
    }
    std::string fsEvent() {
        std::string p = r.pick(Strs{"/p/f1", "/p/d1", "/p/f1", "/p/d1", "/p/f2", "/p/o1", "/p/none", "/p/lf", "/p/ld"});
        switch (r.below(6)) {
            case 0:
            case 1:
                return "rm:" + p;
            case 2:
                return "file:" + p;
            case 3:
                return "dir:" + p;
            case 4:
                return r.pick(Strs{"other:", "other:", "block:", "fifo:", "socket:"}) + p;
            default:
                return "link:" + p + ">" + r.pick(PATHS);
        }
    }
    void fsSetup() {
        for (const char* e : {"file:/p/f1", "dir:/p/d1", "other:/p/o1", "link:/p/lf>/p/f1", "link:/p/ld>/p/d1",
                              "link:/p/loop>/p/loop", "link:/p/dangling>/p/none", "file:rel/f", "file:/p/f2", "dir:/p/d2"})
            plan.ops.push_back(Op("fs", {std::string(e) == "other:/p/o1" ? r.pick(Strs{"other:", "block:", "fifo:", "socket:"}) + "/p/o1" : e}));
    }

    void newArg(const std::string& pid) {
        MParser& m = ps[pid];
        if (r.chance(f.invalid)) {
            emit(badAdd(pid, m));
            return;
        }
        bool p = r.chance(f.pos);
        Strs n = freeNames(m, p);
        if (n.empty()) return;
        Op o("add", {pid});
        o.a.insert(o.a.end(), n.begin(), n.end());
        Exc e = emit(o);
        MArgP a = m.last;
        if (e.is() || !a) return;
        auto ref = [&]() { return refOf(m, a); };
        // the order of the calls on one argument varies
        std::vector<int> steps;
        if (r.chance(65)) steps.push_back(0);
        if (r.chance(40)) steps.push_back(1);
        if (r.chance(f.defaults0)) steps.push_back(2);
        if (r.chance(f.required0)) steps.push_back(3);
        if (r.chance(f.valid0)) steps.push_back(4);
        if (r.chance(f.dest0)) steps.push_back(5);
        if (r.chance(15)) steps.push_back(6);
        if (r.chance(8)) steps.push_back(7);
        if (r.chance(30))
            for (size_t i = steps.size(); i > 1; --i) std::swap(steps[i - 1], steps[r.below((unsigned)i)]);
        for (int s : steps) {
            if (s == 0) opAction(pid, m, a, ref());
            else if (s == 1) opNargs(pid, m, a, ref());
            else if (s == 2) opDefaults(pid, m, a, ref());
            else if (s == 3) emit(Op("required", {pid, ref(), "1"}));
            else if (s == 4) opValid(pid, m, a, ref());
            else if (s == 5) opDest(pid, m, a, ref());
            else if (s == 6) emit(Op("help", {pid, ref(), longText()}));
            else opFlag(pid, m, a, ref());
        }
    }
    void opFlag(const std::string& pid, MParser& m, const MArgP& a, const std::string& ref) {
        std::string n;
        if (r.chance(f.invalid)) {
            n = malformed();
            if (!m.idx.empty() && r.chance(50)) {
                auto it = m.idx.begin();
                std::advance(it, r.below((unsigned)m.idx.size()));
                n = it->first;
            }
        }
        else {
            if (isPos(a->kind) && !r.chance(10)) return;
            Strs fr = freeNames(m, false);
            if (fr.empty()) return;
            n = fr[0];
        }
        emit(Op("flag", {pid, ref, n}));
    }

    void step() {
        std::string pid = parserId();
        MParser& m = ps[pid];
        struct W {
            int w;
            int k;
        };
        std::vector<W> t = {{f.wParse, 0}, {f.wAdd, 1}, {f.wFlag, 2}, {f.wAction, 3}, {f.wNargs, 4}, {f.wDefaults, 5},
                            {f.wRequired, 6}, {f.wHelp, 7}, {f.wMetavar, 8}, {f.wValid, 9}, {f.wDest, 10}, {f.wRemove, 11},
                            {f.wClear, 12}, {f.wDestroy, 13}, {f.wSet, 14}, {f.wText, 15}, {f.wWidth, 16}, {f.wGet, 17},
                            {f.wCopy, 18}, {f.wFs, 19}};
        int sum = 0;
        for (auto& x : t) sum += x.w;
        int pick = (int)r.below((unsigned)sum), k = 0;
        for (auto& x : t) {
            if (pick < x.w) {
                k = x.k;
                break;
            }
            pick -= x.w;
        }
        MArgP a = someArg(m, pid);
        std::string ref;
        if (a) ref = refOf(m, a);
        else if (k >= 2 && k <= 10) k = 1;
        if (k >= 2 && k <= 10 && r.chance(f.invalid / 4)) {
            // an argument that does not exist
            std::string nope = r.pick(Strs{"--nope", "-Q", "nobody", "", "-"});
            static const std::vector<Strs> calls = {{"flag", "--q"}, {"action", "APPEND"}, {"nargs", "2"}, {"required", "1"}, {"help", "h"}};
            const Strs& c = r.pick(calls);
            emit(Op(c[0], {pid, nope, c[1]}));
            return;
        }
        switch (k) {
            case 0:
                parseOp(pid);
                break;
            case 1:
                newArg(pid);
                break;
            case 2:
                opFlag(pid, m, a, ref);
                break;
            case 3:
                opAction(pid, m, a, ref);
                break;
            case 4:
                opNargs(pid, m, a, ref);
                break;
            case 5:
                opDefaults(pid, m, a, ref);
                break;
            case 6:
                emit(Op("required", {pid, ref, r.chance(70) ? "1" : "0"}));
                break;
            case 7:
                emit(Op("help", {pid, ref, longText()}));
                break;
            case 8:
                emit(Op("metavar", {pid, ref, f.alias && r.chance(60) ? alike() : r.pick(Strs{"", "FILE", "SRC DST", "<a-very-long-metavar-name>", "{a,b,c}"})}));
                break;
            case 9:
                opValid(pid, m, a, ref);
                break;
            case 10:
                opDest(pid, m, a, ref);
                break;
            case 11: {
                Op o("remove", {pid});
                int n = r.pick(std::vector<int>{1, 1, 1, 2, 3});
                if (r.chance(f.invalid / 6)) n = 0;
                Strs all;
                for (auto& kv : m.idx)
                    if (!f.noAutoEdit || !autoIds[pid].count(kv.second->id)) all.push_back(kv.first);
                if (all.empty()) {
                    if (!r.chance(f.invalid)) return;
                    n = 0;
                }
                for (int i = 0; i < n; ++i) o.a.push_back(r.pick(all));
                if (r.chance(8) && n > 0) {
                    // every name of one argument
                    MArgP x = m.find(o.a[1]);
                    o.a.resize(1);
                    o.a.insert(o.a.end(), x->names.begin(), x->names.end());
                }
                if (n > 0 && r.chance(f.invalid)) o.a.insert(o.a.begin() + 1 + r.below((unsigned)o.a.size()), r.pick(Strs{"--nope", "", "-", "zz"}));
                emit(o);
                break;
            }
            case 12:
                emit(Op("clear", {pid}));
                if (r.chance(70)) {
                    setup(pid);
                    for (int i = r.range(1, 3); i > 0; --i) newArg(pid);
                }
                break;
            case 13:
                if (live.size() > 1 || r.chance(50)) {
                    emit(Op("destroy", {pid}));
                    emit(Op("new", {pid}));
                    setup(pid);
                }
                break;
            case 14: {
                std::string which = r.pick(Strs{"alt", "alt", "strict", "hexc", "vexc"});
                bool on = which == "hexc" || which == "vexc" ? r.chance((unsigned)f.exc) : r.chance(50);
                emit(Op("set", {pid, which, on ? "1" : "0"}));
                break;
            }
            case 15: {
                std::string which = r.pick(Strs{"desc", "epilog", "version", "version", "bin", "desc", "usage"});
                if (which == "usage" && (f.endless || !r.chance(25))) which = "desc";
                std::string t2 = which == "bin" ? r.pick(Strs{"tool", "/opt/x/tool2", "", "dir/sub/"})
                                 : which == "usage" ? r.pick(Strs{"custom usage", "", "u1\nu2"})
                                                    : longText();
                if (f.alias && r.chance(60)) t2 = alike();
                emit(Op("text", {pid, which, t2}));
                break;
            }
            case 16:
                emit(Op("width", {pid, std::to_string(r.pick(std::vector<int>{0, 1, 2, 4, 30})),
                                  std::to_string(r.pick(std::vector<int>{0, 5, 10, 20, 30, 100})),
                                  std::to_string(r.pick(std::vector<int>{0, 1, 2, 3, 40})),
                                  std::to_string(r.pick(std::vector<int>{0, 1, 10, 20, 40, 56, 80, 1000}))}));
                break;
            case 17: {
                std::string n = a && r.chance(95) ? r.pick(a->names) : "--nope";
                emit(Op("get", {pid, n, r.pick(Strs{"str", "usage", "vec", "vv", "copy", "opstr"})}));
                break;
            }
            case 18:
                if (!copies.empty() && r.chance(35)) {
                    plan.ops.push_back(Op("dropcopy", {r.pick(copies)}));
                    break;
                }
                if (a) {
                    std::string c = "K" + std::to_string(nextCopy++);
                    copies.push_back(c);
                    emit(Op("copy", {pid, r.pick(a->names), c}));
                }
                break;
            default:
                plan.ops.push_back(Op("fs", {fsEvent()}));
                break;
        }
    }

    void setup(const std::string& pid) {
        if (f.endless) emit(Op("text", {pid, "usage", "custom usage"}));
        bool ex = r.chance((unsigned)f.exc);
        if (ex) {
            emit(Op("set", {pid, "hexc", "1"}));
            emit(Op("set", {pid, "vexc", "1"}));
        }
        if (r.chance(35)) emit(Op("set", {pid, "alt", "1"}));
        if (r.chance(25)) emit(Op("set", {pid, "strict", "1"}));
        if (prop == "C03" || r.chance(15)) emit(Op("text", {pid, "version", "tool 1.2"}));
        if (prop == "C03" && r.chance(60)) {
            MParser& m = ps[pid];
            if (!m.idx.count("--version")) {
                emit(Op("add", {pid, "--version"}));
                emit(Op("action", {pid, "@", "VERSION"}));
            }
            if (r.chance(50) && !m.idx.count("-h")) {
                emit(Op("add", {pid, "-h"}));
                if (r.chance(40) && !m.idx.count("--help")) emit(Op("flag", {pid, "@", "--help"}));
                emit(Op("action", {pid, "@", "HELP"}));
            }
        }
    }

    Plan make(bool thorough) {
        if (f.path > 50) fsSetup();
        for (int i = 0; i < (f.parsers > 1 && r.chance(50) ? 2 : 1); ++i) {
            std::string pid = "P" + std::to_string(i);
            emit(Op("new", {pid}));
            setup(pid);
            for (int k = r.range(f.args0Min, f.args0Max); k > 0; --k) newArg(pid);
        }
        int n = r.range(f.opsMin, f.opsMax);
        if (f.many) {
            f.wParse *= 6;
            n = r.range(40, 140);
        }
        if (thorough && r.chance(20)) n *= 3;
        for (int i = 0; i < n; ++i) step();
        std::string pid = parserId();
        if (prop != "C06" || r.chance(60)) parseOp(pid);
        return plan;
    }
};

} // namespace

Plan genPlan(const std::string& prop, uint64_t seed, bool thorough) {
    Gen g(prop, seed);
    return g.make(thorough);
}

bool wantsAllocFaults(const std::string& prop) {
    return prop == "C04" || prop == "C07" || prop == "C10" || prop == "C15" || prop == "C16" || prop == "C20" || prop == "C22";
}

Plan withAllocFaults(const Plan& base, const std::vector<long>& allocs, Rng& r) {
    Plan p;
    p.prop = base.prop;
    std::vector<size_t> cand, parses;
    for (size_t i = 0; i < base.ops.size() && i < allocs.size(); ++i) {
        if (allocs[i] <= 0) continue;
        const std::string& n = base.ops[i].name;
        // only these properties speak about a failed configuration call
        bool parse = n == "parse" || n == "ptwin";
        if (base.prop == "C04" && !parse) continue;
        if (base.prop == "C22" && n != "add" && n != "remove" && n != "defaults") continue;
        if (n == "clear" || n == "destroy") continue;
        cand.push_back(i);
        if (parse) parses.push_back(i);
    }
    std::map<size_t, std::string> at;
    int k = r.pick(std::vector<int>{1, 1, 1, 2, 3});
    for (int j = 0; j < k && !cand.empty(); ++j) {
        size_t i = (!parses.empty() && r.chance(45)) ? r.pick(parses) : r.pick(cand);
        long K = allocs[i];
        long n = r.chance(50) ? 1 + (long)r.below((unsigned)K) : 1 + (long)(r.below((unsigned)K) * (r.below(1000)) / 1000);
        at[i] = std::string(r.chance(65) ? "a=" : "ap=") + std::to_string(n);
    }
    for (size_t i = 0; i < base.ops.size(); ++i) {
        Op o = base.ops[i];
        if (at.count(i)) {
            o.f.push_back(at[i]);
            p.ops.push_back(o);
            // try again afterwards, as a caller would
            Op again = base.ops[i];
            if (again.name != "copy" && r.chance(75)) p.ops.push_back(again);
        }
        else p.ops.push_back(o);
    }
    return p;
}

std::vector<Plan> allocSweep(const Plan& base, const std::vector<long>& allocs, size_t cap) {
    std::vector<Plan> out;
    for (size_t i = 0; i < base.ops.size() && i < allocs.size(); ++i) {
        const std::string& n = base.ops[i].name;
        bool parse = n == "parse" || n == "ptwin";
        if (base.prop == "C04" && !parse) continue;
        if (base.prop == "C22" && n != "add" && n != "remove" && n != "defaults") continue;
        if (n == "clear" || n == "destroy") continue;
        for (long k = 1; k <= allocs[i]; ++k)
            for (int pers = 0; pers < 2; ++pers) {
                Plan p = base;
                p.ops[i].f.push_back((pers ? "ap=" : "a=") + std::to_string(k));
                if (n != "copy") p.ops.insert(p.ops.begin() + (long)i + 1, base.ops[i]);
                out.push_back(p);
                if (out.size() >= cap) return out;
            }
    }
    return out;
}

} // namespace sim
