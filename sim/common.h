// Plans, the seeded generator and text encoding shared by all simulator parts.
// A plan is a plain list of operations with fault tokens; executing it is a
// pure function of the plan and of the code under test.
#ifndef SIM_COMMON_H_
#define SIM_COMMON_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

typedef std::vector<std::string> Strs;

// splitmix64: one integer decides everything
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    unsigned below(unsigned n) { return n == 0 ? 0 : (unsigned)(next() % n); }
    int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template<class T>
    const T& pick(const std::vector<T>& v) { return v[below((unsigned)v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ULL + b + 0x1234567);
    r.next();
    return r.next();
}

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

inline std::string enc(const std::string& s) {
    if (s.empty()) return "%e";
    static const struct Table {
        bool ok[256];
        Table() {
            for (int c = 0; c < 256; ++c) ok[c] = c != 0 && (isalnum(c) || strchr("_./=+,:-", c) != nullptr);
        }
    } table;
    size_t plain = 0;
    while (plain < s.size() && table.ok[(unsigned char)s[plain]]) ++plain;
    if (plain == s.size()) return s;
    std::string r(s, 0, plain);
    static const char* H = "0123456789ABCDEF";
    for (size_t i = plain; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i];
        bool ok = table.ok[c];
        if (ok) r += (char)c;
        else {
            r += '%';
            r += H[c >> 4];
            r += H[c & 15];
        }
    }
    return r;
}

inline std::string dec(const std::string& s) {
    if (s == "%e") return "";
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        }
        else r += s[i];
    }
    return r;
}

// One operation. faults: "a=3" n-th allocation fails, "ap=3" every allocation
// from the n-th on fails, "cb=2:rt" second callback call throws,
// "st=1:EIO" first stat call fails, "fs=2:rm:p" file system changes right
// before the second stat call, "out=5" stdout fails after 5 bytes.
struct Op {
    std::string name;
    Strs a;
    Strs f;
    Op() {}
    Op(const std::string& n, const Strs& args = Strs()) : name(n), a(args) {}
    std::string text() const {
        std::string r = name;
        for (auto& x : a) r += " " + enc(x);
        for (auto& x : f) r += " !" + enc(x);
        return r;
    }
    bool fault(const std::string& key, std::string* val) const {
        for (auto& x : f)
            if (x.compare(0, key.size() + 1, key + "=") == 0) {
                *val = x.substr(key.size() + 1);
                return true;
            }
        return false;
    }
    std::vector<std::string> faultsOf(const std::string& key) const {
        Strs r;
        for (auto& x : f)
            if (x.compare(0, key.size() + 1, key + "=") == 0) r.push_back(x.substr(key.size() + 1));
        return r;
    }
};

struct Plan {
    std::string prop;
    std::vector<Op> ops;
    std::string text() const {
        std::string r = "prop " + prop + "\n";
        for (auto& o : ops) r += o.text() + "\n";
        return r;
    }
    static Plan parse(const std::string& t) {
        Plan p;
        std::istringstream is(t);
        std::string line;
        while (std::getline(is, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream ls(line);
            std::string tok;
            Op o;
            bool first = true;
            while (ls >> tok) {
                if (first) {
                    o.name = tok;
                    first = false;
                }
                else if (tok[0] == '!') o.f.push_back(dec(tok.substr(1)));
                else o.a.push_back(dec(tok));
            }
            if (first) continue;
            if (o.name == "prop") {
                p.prop = o.a.empty() ? "" : o.a[0];
                continue;
            }
            p.ops.push_back(o);
        }
        return p;
    }
};

inline std::string joinq(const Strs& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) r += " ";
        r += enc(v[i]);
    }
    return r + "]";
}

inline std::vector<std::string> split(const std::string& s, char c) {
    Strs r;
    std::string cur;
    for (char x : s) {
        if (x == c) {
            r.push_back(cur);
            cur.clear();
        }
        else cur += x;
    }
    r.push_back(cur);
    return r;
}

} // namespace sim

#endif
