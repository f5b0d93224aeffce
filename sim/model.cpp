#include "model.h"

#include <algorithm>
#include <cmath>

namespace sim {

const char* const ACT_NAMES[8] = {"NONE", "HELP", "VERSION", "STORE_TRUE", "STORE_FALSE", "APPEND", "EXTEND", "INFINITE"};
const char* const KIND_NAMES[16] = {"",     "HELP",  "VERSION",  "BOOL",   "REV",       "SIMPLE", "NUMBER", "INF",
                                    "MULTI", "MULTIINF", "MULTIN", "MULTININF", "POS1",   "POSN",   "POSINF", "POSINFN"};
int actFromName(const std::string& s) {
    for (int i = 0; i < 8; ++i)
        if (s == ACT_NAMES[i]) return i;
    return 0;
}

bool shortOpt(const std::string& s) { return s.size() >= 2 && s[0] == '-' && s[1] != '-'; }
bool longOpt(const std::string& s) { return s.size() >= 3 && s[0] == '-' && s[1] == '-'; }

double toNum(const std::string& s, bool* ok) {
    // numerals used by the workloads are plain decimals; anything else they use
    // is not a number at all
    std::istringstream is(s);
    double d = 0;
    *ok = static_cast<bool>(is >> d);
    return *ok ? d : 0.0;
}

// a text some conversion may read a number from, though not a plain decimal one
bool oddNumeral(const std::string& t) {
    char* end = nullptr;
    strtod(t.c_str(), &end);
    if (end == t.c_str()) return false;
    size_t i = t[0] == '-' ? 1 : 0, n = i;
    auto digits = [&] {
        size_t from = i;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
        return i > from;
    };
    if (!digits() || (t[n] == '0' && i > n + 1)) return true;
    if (i < t.size() && t[i] == '.' && (++i, !digits())) return true;
    if (i < t.size() && t[i] == 'e') {
        ++i;
        if (i < t.size() && t[i] == '-') ++i;
        if (!digits()) return true;
    }
    return t == "-0";
}
std::string numShown(const std::string& text, bool is, double d) { return oddNumeral(text) ? "~" : is ? numText(d) : "-"; }
std::string numText(double d) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}

Exc cbExc(const std::string& k) {
    if (k == "rt") return Exc("std::runtime_error", "", "boom");
    if (k == "int") return Exc("int", "", "42");
    if (k == "pve") return Exc("ParseArgumentValidException", "", "custom refusal");
    if (k == "ae") return Exc("ArgumentException", "cbarg", "cb message");
    if (k == "ba") return Exc("std::bad_alloc", "", "");
    if (k == "he") return Exc("HelpException", "", "cb help");
    return Exc("std::runtime_error", "", "boom");
}

Exc validateFlag(const std::string& f) {
    const char* C = "ArgumentException";
    if (f.empty() || f[0] != '-') return Exc(C, f, "invalid flag not start by '-' character");
    if (f == "-") return Exc(C, f, "invalid flag not be only '-' character");
    if (f == "--") return Exc(C, f, "invalid flag not be only '--' characters");
    if (f[1] != '-' && f.size() > 2) return Exc(C, f, "invalid short flag has not only one character");
    return Exc();
}

void MArg::rebuild() {
    elems.clear();
    scalar.clear();
    defText.clear();
    snum = false;
    snumber = 0;
    exist = false;
    count = 0;
    if (nargs == 0 || defaults.empty()) return;
    if (isScalar(kind)) {
        scalar = defText = defaults[0];
        return;
    }
    if (isFlat(kind)) {
        for (size_t i = 0; i < defaults.size(); ++i) {
            if (i) defText += ", ";
            defText += defaults[i];
            Elem e;
            e.v = e.def = defaults[i];
            elems.push_back(e);
        }
        return;
    }
    if (isNested(kind)) {
        for (size_t i = 0; i < defaults.size(); i += nargs) {
            if (i) defText += ", ";
            Elem e;
            std::string t;
            for (size_t j = 0; j < nargs; ++j) {
                if (j) t += ", ";
                t += defaults[i + j];
                Leaf l;
                l.v = l.def = defaults[i + j];
                e.subs.push_back(l);
            }
            e.def = t;
            defText += "(" + t + ")";
            elems.push_back(e);
        }
    }
}

Strs MArg::flat() const {
    Strs r;
    if (isScalar(kind)) r.push_back(scalar);
    else
        for (auto& e : elems) {
            if (isNested(kind))
                for (auto& l : e.subs) r.push_back(l.v);
            else r.push_back(e.v);
        }
    return r;
}

std::string MArg::str() const {
    if (kind == K_BOOL) return exist ? "true" : "false";
    if (kind == K_REV) return exist ? "false" : "true";
    if (elems.empty()) return scalar;
    std::string r;
    for (size_t i = 0; i < elems.size(); ++i) {
        if (i) r += ", ";
        if (elems[i].subs.empty()) r += elems[i].v;
        else {
            r += "(";
            for (size_t j = 0; j < elems[i].subs.size(); ++j) r += (j ? ", " : "") + elems[i].subs[j].v;
            r += ")";
        }
    }
    return r;
}

void MParser::sort() {
    // options before positionals; required first; among options of equal
    // requirement short-named before long-named, then by first name;
    // positionals keep their present order otherwise
    std::stable_sort(order.begin(), order.end(), [](const MArgP& a, const MArgP& b) {
        bool pa = isPos(a->kind), pb = isPos(b->kind);
        if (pa != pb) return pb;
        if (a->required != b->required) return a->required;
        if (pa) return false;
        bool sa = shortOpt(a->names[0]), sb = shortOpt(b->names[0]);
        if (sa != sb) return sa;
        return a->names[0] < b->names[0];
    });
}

static void sortNames(Strs& n) {
    std::sort(n.begin(), n.end(), [](const std::string& a, const std::string& b) {
        bool sa = shortOpt(a), sb = shortOpt(b);
        if (sa != sb) return sa;
        return a < b;
    });
}

Exc MParser::add(const Strs& names) {
    const char* C = "ArgumentException";
    if (names.empty()) return Exc(C, "", "invalid empty flag");
    MArgP a = std::make_shared<MArg>();
    if (names.size() == 1 && (names[0].empty() || names[0][0] != '-')) {
        if (names[0].empty()) return Exc(C, "", "bad name argument");
        if (idx.count(names[0])) return Exc(C, names[0], "bad name argument already exist");
        a->names = names;
        a->kind = K_POS1;
    }
    else {
        for (auto& n : names) {
            Exc e = validateFlag(n);
            if (e.is()) return e;
            if (idx.count(n)) return Exc(C, n, "invalid flag already exist");
            if (std::find(a->names.begin(), a->names.end(), n) == a->names.end()) a->names.push_back(n);
        }
        sortNames(a->names);
        a->kind = K_SIMPLE;
    }
    a->id = nextId++;
    for (auto& n : a->names) idx[n] = a;
    order.push_back(a);
    sort();
    last = a;
    return Exc();
}

Exc MParser::addFlag(MArgP a, const std::string& flag) {
    if (isPos(a->kind)) return Exc("ArgumentException", flag, "can't add flag in positionnal argument");
    Exc e = validateFlag(flag);
    if (e.is()) return e;
    if (idx.count(flag)) return Exc("ArgumentException", flag, "invalid flag already exist");
    a->names.push_back(flag);
    sortNames(a->names);
    idx[flag] = a;
    sort();
    return Exc();
}

Exc MParser::configure(MArgP a, size_t nargs, int action, const Strs& defaults) {
    const char* C = "ArgumentException";
    std::string front = a->names[0];
    int kind = a->kind;
    bool plus = nargs == '+' && action == A_NONE;
    if (isPos(a->kind)) {
        if (nargs == 1 && action == A_NONE) kind = K_POS1;
        else if (plus || (nargs == 1 && action == A_INFINITE)) {
            kind = K_POSINF;
            nargs = 1;
            action = A_INFINITE;
        }
        else if (nargs > 1 && action == A_NONE) kind = K_POSN;
        else if (nargs > 1 && action == A_INFINITE) kind = K_POSINFN;
        else return Exc(C, front, "positional argument cannot use with this action or this nargs");
    }
    else if (action == A_TRUE || action == A_FALSE || action == A_HELP || action == A_VERSION) {
        if (action == A_HELP && help && help != a) return Exc(C, front, "help action already defined");
        if (action == A_VERSION && version && version != a) return Exc(C, front, "version action already defined");
        kind = action == A_TRUE ? K_BOOL : action == A_FALSE ? K_REV : action == A_HELP ? K_HELP : K_VERSION;
        nargs = 0;
    }
    else if (nargs == 0) kind = K_BOOL;
    else if (plus || action == A_INFINITE) {
        kind = K_INF;
        nargs = 1;
        action = A_INFINITE;
    }
    else if (action == A_NONE) kind = nargs == 1 ? K_SIMPLE : K_NUMBER;
    else if (action == A_APPEND) kind = nargs == 1 ? K_MULTI : K_MULTIN;
    else kind = nargs == 1 ? K_MULTIINF : K_MULTININF;
    if (nargs > 0 && !defaults.empty()) {
        bool bad = false;
        if (isScalar(kind) || kind == K_NUMBER || kind == K_POSN) bad = defaults.size() != nargs;
        else if (isNested(kind)) bad = defaults.size() % nargs != 0;
        if (bad) return Exc(C, front, "invalid number of argument with number of default argument");
    }
    if (help == a) help.reset();
    if (version == a) version.reset();
    if (kind == K_HELP) help = a;
    if (kind == K_VERSION) version = a;
    a->kind = kind;
    a->nargs = nargs;
    a->action = action;
    a->defaults = defaults;
    bool fresh = !a->parsed;
    bool ex = a->exist;
    size_t c = a->count;
    a->rebuild();
    if (!fresh) {
        // what an argument shows between a change of its shape and the next
        // parse is not specified once it has been parsed
        a->exist = ex;
        a->count = c;
        a->known = false;
    }
    return Exc();
}

void MParser::required(MArgP a, bool v) {
    a->required = v;
    sort();
}

Exc MParser::remove(const Strs& names, std::vector<int>* freed) {
    const char* C = "ArgumentException";
    if (names.empty()) return Exc(C, "", "invalid empty flag");
    for (auto& n : names)
        if (!idx.count(n)) return Exc(C, n, "argument not found");
    for (auto& n : names) {
        MArgP a = find(n);
        if (!a) continue;  // listed twice
        a->names.erase(std::find(a->names.begin(), a->names.end(), n));
        idx.erase(n);
        if (a->names.empty()) {
            order.erase(std::find(order.begin(), order.end(), a));
            if (help == a) help.reset();
            if (version == a) version.reset();
            if (last == a) last.reset();
            if (a->valid >= 0 && a->validOwned) freed->push_back(a->valid);
        }
    }
    sort();
    return Exc();
}

void MParser::clear(std::vector<int>* freed) {
    for (auto& a : order)
        if (a->valid >= 0 && a->validOwned) freed->push_back(a->valid);
    World* keep = w;
    int id = nextId;
    *this = MParser();
    w = keep;
    nextId = id;
}

// ---------------------------------------------------------------- usage text

static std::vector<std::string> wrap(const std::string& text, size_t width) {
    std::vector<std::string> out;
    if (text.empty()) return out;
    Strs lines = split(text, '\n');
    if (lines.back().empty()) lines.pop_back();
    for (std::string line : lines) {
        while (line.size() >= width) {
            size_t sp = line.rfind(' ', width);
            if (sp == std::string::npos) break;
            out.push_back(line.substr(0, sp));
            line.erase(0, sp);
            line.erase(0, std::min(line.find_first_not_of(' '), line.size()));
        }
        out.push_back(line);
    }
    return out;
}

static std::string metavarOf(const MArg& a) {
    if (!a.metavar.empty()) return a.metavar;
    std::string base;
    for (auto& n : a.names)
        if (longOpt(n)) {
            base = n.substr(2);
            break;
        }
    if (base.empty()) base = a.names[0].substr(1);
    for (auto& c : base) c = (char)toupper(c);
    if (a.kind == K_INF) return base + "...";
    std::string r = base;
    for (size_t i = 1; i < a.nargs; ++i) r += " " + base;
    return r;
}

std::string MParser::usage() const {
    if (!usageText.empty()) return usageText;
    std::string base = binaryName.substr(binaryName.rfind('/') == std::string::npos ? 0 : binaryName.rfind('/') + 1);
    std::string head = "usage: " + base, out = head;
    const size_t lim = pad + argsw + sep + helpw;
    const std::string cont = "\n" + std::string(head.size() + 1, ' ');
    size_t col = head.size();
    bool multi = false, anyOpt = false, anyPos = false;
    for (auto& a : order) (isPos(a->kind) ? anyPos : anyOpt) = true;
    auto item = [&](std::string t, bool req) {
        if (!req) t = "[" + t + "]";
        if (col + t.size() >= lim) {
            multi = true;
            out += cont + t;
            col = head.size() + 1 + t.size();
        }
        else {
            out += " " + t;
            col += t.size() + 1;
        }
    };
    for (auto& a : order)
        if (!isPos(a->kind)) item(a->names[0] + (isSwitch(a->kind) ? "" : " " + metavarOf(*a)), a->required);
    if (anyOpt && anyPos) {
        if (multi || col + 3 >= lim) {
            out += cont + "--\n" + std::string(head.size(), ' ');
            col = head.size();
        }
        else {
            out += " --";
            col += 3;
        }
    }
    for (auto& a : order) {
        if (!isPos(a->kind)) continue;
        const std::string& n = a->names[0];
        std::string many = n;
        for (size_t i = 1; i < a->nargs; ++i) many += " " + n;
        if (a->kind == K_POS1) item(n, a->required);
        else if (a->kind == K_POSN) item(many, a->required);
        else if (a->kind == K_POSINF) item(n + " {" + n + "}...", a->required);
        else item("{" + many + "}...", a->required);
    }
    auto block = [&](const std::string& t) {
        if (t.empty()) return;
        out += "\n";
        for (auto& l : wrap(t, lim)) out += "\n" + l;
    };
    block(desc);
    auto section = [&](bool pos) {
        bool first = true;
        for (auto& a : order) {
            if (isPos(a->kind) != pos) continue;
            if (first) out += pos ? "\n\npositional arguments:\n" : "\n\noptional arguments:\n";
            else out += "\n";
            first = false;
            std::string label;
            if (pos) label = a->names[0];
            else {
                for (size_t i = 0; i < a->names.size(); ++i) label += (i ? ", " : "") + a->names[i];
                if (!isSwitch(a->kind)) label += " " + metavarOf(*a);
            }
            out += std::string(pad, ' ') + label;
            if (label.size() <= argsw) out += std::string(argsw + sep - label.size(), ' ');
            else out += "\n" + std::string(pad + argsw + sep, ' ');
            std::string h = a->help;
            if (a->required) h += " (required)";
            else if (!a->defText.empty()) h += " (default: " + a->defText + ")";
            Strs lines = wrap(h, helpw);
            for (size_t i = 0; i < lines.size(); ++i) {
                if (i) out += "\n" + std::string(pad + argsw + sep, ' ');
                out += lines[i];
            }
        }
    };
    section(true);
    section(false);
    block(epilog);
    return out;
}

// ---------------------------------------------------------------- validators

bool judge(const VSpec& s, Strs& v, Exc* e) {
    const char* C = "ParseArgumentValidException";
    auto refuse = [&](const std::string& m) {
        *e = Exc(C, "", m);
        return false;
    };
    *e = Exc();
    if (s.kind == "num") {
        for (auto& x : v) {
            char* end = nullptr;
            strtod(x.c_str(), &end);
            if (end == x.c_str() || *end != 0) return refuse("\"" + x + "\" is not a number");
        }
        return true;
    }
    if (s.kind == "minmax") {
        double lo = atof(s.p[0].c_str()), hi = atof(s.p[1].c_str());
        if (lo > hi) std::swap(lo, hi);
        for (auto& x : v) {
            bool ok;
            double d = toNum(x, &ok);
            if (!ok) return refuse("\"" + x + "\" is not a number");
            if (d < lo || d > hi) {
                char b[128];
                snprintf(b, sizeof b, " is not between %g and %g", lo, hi);
                return refuse(x + b);
            }
        }
        return true;
    }
    if (s.kind == "choice") {
        for (auto& x : v)
            if (std::find(s.p.begin(), s.p.end(), x) == s.p.end()) {
                std::string l;
                for (size_t i = 0; i < s.p.size(); ++i) l += (i ? ", \"" : "\"") + s.p[i] + "\"";
                return refuse("\"" + x + "\" is not a valid choise (" + l + ")");
            }
        return true;
    }
    if (s.kind == "accept" || s.kind == "read" || s.kind == "nest") return true;
    if (s.kind == "false") return false;
    bool hit = false;
    for (auto& x : v) hit = hit || x.find('!') != std::string::npos;
    if (s.kind == "falseif") return !hit;
    if (s.kind == "pveif") return hit ? refuse("has bang") : true;
    if (s.kind == "rtif") {
        if (hit) {
            *e = Exc("std::runtime_error", "", "bang");
            return false;
        }
        return true;
    }
    if (s.kind == "upper") {
        for (auto& x : v)
            for (auto& c : x)
                if (c >= 'a' && c <= 'z') c = (char)(c - 32);
        return true;
    }
    if (s.kind == "rev") {
        std::reverse(v.begin(), v.end());
        return true;
    }
    if (s.kind == "set") {
        for (size_t i = 0; i < v.size(); ++i) v[i] = s.p[0] + std::to_string(i);
        return true;
    }
    if (s.kind == "grow") {
        v.push_back("grown-extra-value-beyond-the-given-ones");
        return true;
    }
    if (s.kind == "shrink") {
        for (auto& x : v) x = "s" + x;
        if (!v.empty()) v.pop_back();
        return true;
    }
    return true;
}

// -------------------------------------------------------------- destinations

// a number that does not fit the type has no specified conversion
static bool fits(const std::string& type, const std::string& s) {
    static const std::map<std::string, std::pair<double, double> > lim = {
        {"chr", {-128, 127}}, {"uchr", {0, 255}}, {"short", {-32768, 32767}}, {"ushort", {0, 65535}},
        {"int", {-2147483648.0, 2147483647.0}}, {"uint", {0, 4294967295.0}}, {"long", {-9e18, 9e18}}, {"llong", {-9e18, 9e18}},
        {"ulong", {0, 1.8e19}}, {"ullong", {0, 1.8e19}}};
    auto it = lim.find(type);
    if (it == lim.end()) return true;
    double d = trunc(strtod(s.c_str(), nullptr));
    return d >= it->second.first && d <= it->second.second;
}
static std::string convText(const std::string& type, const std::string& s) {
    double d = strtod(s.c_str(), nullptr);
    if (!fits(type, s)) return "?";
    if (type == "uchr" || type == "ushort" || type == "uint" || type == "ulong" || type == "ullong")
        return std::to_string((unsigned long long)d);
    if (type == "llong") return std::to_string((long long)d);
    if (type == "ldbl") return numText(d);
    if (type == "int") return std::to_string((int)d);
    if (type == "long") return std::to_string((long)d);
    if (type == "short") return std::to_string((short)d);
    if (type == "chr") return std::to_string((int)(char)d);
    if (type == "dbl") return numText(d);
    if (type == "flt") return numText((double)(float)d);
    if (type == "bool") return d != 0 ? "1" : "0";
    if (type.size() > 3 && type.compare(0, 3, "chr") == 0) return s.substr(0, (size_t)atoi(type.c_str() + 3) - 1);
    return s;  // str, cstr
}
static std::string convBool(const std::string& type, bool b) {
    if (type == "str" || type == "cstr" || (type.size() > 3 && type.compare(0, 3, "chr") == 0)) {
        std::string t = b ? "true" : "false";
        return type.size() > 3 && type != "cstr" ? t.substr(0, (size_t)atoi(type.c_str() + 3) - 1) : t;
    }
    return b ? "1" : "0";
}

void deliver(DestState& d, const MArg& a, ParseOut* out, int id, Exc* e) {
    std::string t = d.spec.type;
    bool vv = t.size() > 2 && t.compare(0, 2, "vv") == 0;
    bool v = !vv && t.size() > 1 && t[0] == 'v';
    std::string base = vv ? t.substr(2) : v ? t.substr(1) : t;
    bool sw = a.kind == K_BOOL || a.kind == K_REV;
    bool on = a.kind == K_REV ? !a.exist : a.exist;
    if (!d.spec.cb.empty()) {
        std::string log = "D" + std::to_string(id) + (a.exist ? " 1 " : " 0 ");
        Strs rows;
        if (vv) {
            if (a.elems.empty()) rows.push_back(joinq(Strs(1, a.scalar)));
            for (auto& el : a.elems) {
                Strs r;
                for (auto& l : el.subs) r.push_back(l.v);
                if (el.subs.empty()) r.push_back(el.v);
                rows.push_back(joinq(r));
            }
            for (auto& r : rows) log += r;
        }
        else if (v) {
            if (a.elems.empty()) rows.push_back(a.scalar);
            for (auto& el : a.elems) {
                if (el.subs.empty()) rows.push_back(el.v);
                for (auto& l : el.subs) rows.push_back(l.v);
            }
            log += joinq(rows);
        }
        else {
            rows.push_back(a.scalar);
            // one text for an argument with a list of values is not specified
            if (isFlat(a.kind) || isNested(a.kind)) {
                log += "?";
                d.known = false;
            }
            else log += enc(a.scalar);
        }
        out->dcalls.push_back(log);
        d.items.clear();
        for (auto& r : rows) d.items.push_back("<" + r + ">");
        return;
    }
    if (base == "unsup") {
        *e = Exc("ParseArgumentException", "", "destination method not found for this type");
        return;
    }
    auto convText = [&](const std::string& type, const std::string& s) {
        if (!fits(type, s)) d.known = false;
        return sim::convText(type, s);
    };
    auto one = [&]() { return sw ? convBool(base, on) : convText(base, a.scalar); };
    if (vv) {
        if (a.elems.empty()) d.items.push_back(joinq(Strs(1, one())));
        for (auto& el : a.elems) {
            Strs r;
            for (auto& l : el.subs) r.push_back(convText(base, l.v));
            if (el.subs.empty()) r.push_back(convText(base, el.v));
            d.items.push_back(joinq(r));
        }
    }
    else if (v) {
        if (a.elems.empty()) d.items.push_back(one());
        for (auto& el : a.elems) {
            if (el.subs.empty()) d.items.push_back(convText(base, el.v));
            for (auto& l : el.subs) d.items.push_back(convText(base, l.v));
        }
    }
    else {
        if (isFlat(a.kind) || isNested(a.kind)) d.known = false;
        d.items = Strs(1, one());
    }
}

// --------------------------------------------------------------------- parse

void MParser::unknownAll() {
    for (auto& a : order) a->known = false;
    addKnown = false;
}

bool MParser::helpBlocked() const { return !help && idx.count("-h") && idx.count("--help"); }

namespace {

struct Stop {
    Exc e;
};

struct Run {
    MParser& p;
    const Strs& av;
    size_t end;  // index of "--" or argc
    size_t i = 1;

    Run(MParser& pp, const Strs& a) : p(pp), av(a), end(a.size()) {
        for (size_t k = 1; k < a.size(); ++k)
            if (a[k] == "--") {
                end = k;
                break;
            }
    }
    [[noreturn]] void fail(const std::string& arg, const std::string& what) {
        throw Stop{Exc("ParseArgumentException", arg, what)};
    }
    static bool attachable(int k) {
        return k == K_SIMPLE || k == K_NUMBER || k == K_INF || k == K_MULTI || k == K_MULTIINF || k == K_MULTIN;
    }
    static bool splitEq(const std::string& t, std::string* n, std::string* v) {
        size_t q = t.find('=');
        *n = t.substr(0, q);
        if (q == std::string::npos) return false;
        *v = t.substr(q + 1);
        return true;
    }
    void push(MArg& a, const std::string& v) {
        Elem e;
        e.v = v;
        a.elems.push_back(e);
    }
    void pushRow(MArg& a, size_t from) {
        Elem e;
        for (size_t k = 0; k < a.nargs; ++k) {
            Leaf l;
            l.v = av[from + k];
            e.subs.push_back(l);
        }
        a.elems.push_back(e);
    }
    bool stopsInfinite(const std::string& t) {
        std::string n, v;
        if (longOpt(t)) {
            splitEq(t, &n, &v);
            return p.idx.count(n) != 0;
        }
        if (!shortOpt(t)) return false;
        bool hasV = splitEq(t, &n, &v);
        if (p.alt && p.idx.count("-" + n)) return true;
        for (size_t k = 1; k + 1 < n.size(); ++k) {
            MArgP a = p.find(std::string("-") + n[k]);
            if (!a) return false;
            if (!hasV && attachable(a->kind)) return true;
            if (a->kind == K_BOOL || a->kind == K_REV) return true;
        }
        return p.idx.count(std::string("-") + n.back()) != 0;
    }
    void occurrence(MArg& a, const std::string& as, bool hasV, const std::string& v) {
        if (hasV) {
            if (a.kind == K_SIMPLE) a.scalar = v;
            else if (a.kind == K_INF) {
                a.elems.clear();
                push(a, v);
            }
            else if (a.kind == K_MULTI || a.kind == K_MULTIINF) {
                if (!a.exist) a.elems.clear();
                push(a, v);
            }
            else if (a.kind == K_NUMBER || a.kind == K_MULTIN || a.kind == K_MULTININF)
                fail(as, "option cannot use with only 1 argument");
            else fail(as, "option cannot use with argument");
        }
        else {
            size_t avail = end - i - 1;  // tokens left for values
            bool first = !a.exist;
            switch (a.kind) {
                case K_SIMPLE:
                    if (avail < 1) fail(as, "bad number of argument");
                    a.scalar = av[++i];
                    break;
                case K_NUMBER:
                    if (avail < a.nargs) fail(as, "bad number of argument");
                    a.elems.clear();
                    for (size_t k = 0; k < a.nargs; ++k) push(a, av[++i]);
                    break;
                case K_MULTI:
                    if (avail < 1) fail(as, "bad number of argument");
                    if (first) a.elems.clear();
                    push(a, av[++i]);
                    break;
                case K_MULTIN:
                    if (avail < a.nargs) fail(as, "bad number of argument");
                    if (first) a.elems.clear();
                    pushRow(a, i + 1);
                    i += a.nargs;
                    break;
                case K_INF:
                case K_MULTIINF:
                    if (first || a.kind == K_INF) a.elems.clear();
                    while (i + 1 < end && !stopsInfinite(av[i + 1])) push(a, av[++i]);
                    break;
                case K_MULTININF:
                    if (first) a.elems.clear();
                    while (i + 1 < end && !stopsInfinite(av[i + 1])) {
                        if (end - i - 1 < a.nargs) fail(as, "bad number of argument");
                        pushRow(a, i + 1);
                        i += a.nargs;
                    }
                    break;
                default:
                    break;
            }
        }
        a.exist = true;
        ++a.count;
    }
    void shortToken() {
        std::string n, v;
        bool hasV = splitEq(av[i], &n, &v);
        if (p.alt) {
            MArgP a = p.find("-" + n);
            if (a) {
                occurrence(*a, n.substr(1), hasV, v);
                return;
            }
        }
        for (size_t k = 1; k + 1 < n.size(); ++k) {
            std::string c(1, n[k]);
            MArgP a = p.find("-" + c);
            if (!a) fail(c, "invalid option");
            if (!hasV && attachable(a->kind)) {
                occurrence(*a, c, true, n.substr(k + 1));
                return;
            }
            if (a->kind != K_BOOL && a->kind != K_REV) fail(c, "only last option can be use a parameter");
            a->exist = true;
            ++a->count;
        }
        std::string c(1, n.back());
        MArgP a = p.find("-" + c);
        if (!a) fail(c, "invalid option");
        occurrence(*a, c, hasV, v);
    }
    void longToken() {
        std::string n, v;
        bool hasV = splitEq(av[i], &n, &v);
        MArgP a = p.find(n);
        if (!a) fail(n.substr(2), "invalid option");
        occurrence(*a, n.substr(2), hasV, v);
    }
    void positional(bool afterEnd) {
        size_t lim = afterEnd ? av.size() : end;
        MArgP a;
        for (auto& x : p.order)
            if (isPos(x->kind) && !x->exist) {
                a = x;
                break;
            }
        if (!a) {
            if (p.strict) fail(av[i], "invalid additional argument");
            p.additional.push_back(av[i]);
            return;
        }
        a->elems.clear();
        switch (a->kind) {
            case K_POS1:
                a->scalar = av[i];
                break;
            case K_POSN:
                if (lim - i < a->nargs) fail(a->names[0], "bad number of argument");
                for (size_t k = 0; k < a->nargs; ++k) push(*a, av[i + k]);
                i += a->nargs - 1;
                break;
            case K_POSINF:
                push(*a, av[i]);
                while (i + 1 < lim && (afterEnd || !stopsInfinite(av[i + 1]))) push(*a, av[++i]);
                break;
            default:
                for (;;) {
                    if (lim - i < a->nargs) fail(a->names[0], "bad number of argument");
                    pushRow(*a, i);
                    i += a->nargs - 1;
                    if (i + 1 >= lim || (!afterEnd && stopsInfinite(av[i + 1]))) break;
                    ++i;
                }
                break;
        }
        a->exist = true;
    }
    void all() {
        for (; i < av.size(); ++i) {
            const std::string& t = av[i];
            if (i == end) {
                for (++i; i < av.size(); ++i) positional(true);
                break;
            }
            if (shortOpt(t)) shortToken();
            else if (longOpt(t)) longToken();
            else positional(false);
        }
    }
};

} // namespace

ParseOut MParser::parse(const Strs& argv, const Faults& f,
                        const std::function<bool(const VSpec&, Strs&, Exc*)>& pathVerdict) {
    ParseOut o;
    for (auto& a : order) {
        a->rebuild();
        a->known = true;
        a->parsed = true;
    }
    additional.clear();
    addKnown = true;
    if (!help) {
        Strs fl;
        if (!idx.count("-h")) fl.push_back("-h");
        if (!idx.count("--help")) fl.push_back("--help");
        if (!fl.empty()) {
            MArgP keep = last;
            add(fl);
            MArgP a = last;
            configure(a, 1, A_HELP, Strs());
            a->parsed = true;
            a->help = "show this help message and exit";
            last = keep;
        }
    }
    if (binaryName.empty() && !argv.empty()) binaryName = argv[0];
    auto bail = [&](const std::string& stage, const Exc& e) {
        o.stage = stage;
        o.exc = e;
        unknownAll();
        return o;
    };
    Run r(*this, argv);
    try {
        r.all();
    }
    catch (Stop& s) {
        return bail("token", s.e);
    }
    for (int pass = 0; pass < 2; ++pass) {
        MArgP who = pass == 0 ? help : version;
        if (!who || !who->exist) continue;
        std::string text = pass == 0 ? usage() : versionText;
        if (pass == 0 ? hexc : vexc)
            return bail(pass == 0 ? "help" : "version",
                        Exc(pass == 0 ? "HelpException" : "VersionException", "", text));
        o.exited = true;
        o.out = text + "\n";
        o.stage = "exit";
        return o;
    }
    for (auto& a : order)
        if (a->required && !a->exist)
            return bail("required", Exc("ParseArgumentRequiredException", a->names[0],
                                        isPos(a->kind) ? "argument is required" : "option is required"));
    int nv = 0, nd = 0;
    std::set<int> processed;
    auto snapshot = [&]() {
        std::string s;
        for (auto& a : order) {
            s += enc(a->names[0]) + ":" + (a->exist ? "1" : "0");
            if (processed.count(a->id)) {
                View v = view(*a);
                std::string nums;
                for (auto& e : a->elems) {
                    if (e.subs.empty()) nums += "," + (e.num ? numText(e.number) : std::string("-"));
                    for (auto& l : e.subs) nums += "," + (l.num ? numText(l.number) : std::string("-"));
                }
                s += ":" + enc(a->str()) + ":" + enc(v["val.num"]) + ":" + enc(v["val.vec"]) + ":" + enc(v["val.vv"]) + ":" + enc(nums);
            }
            s += ";";
        }
        return s;
    };
    for (auto& a : order) {
        if (a->exist && a->valid >= 0) {
            const VSpec& s = w->valids[a->valid];
            Strs vals = isSwitch(a->kind) ? Strs() : a->flat();
            o.vcalls.push_back("V" + std::to_string(a->valid) + " " + joinq(vals));
            Exc e;
            bool ok;
            if (++nv == f.cbv) {
                e = cbExc(f.cbvKind);
                ok = false;
            }
            else {
                if (s.kind == "read") o.reads.push_back("V" + std::to_string(a->valid) + " " + snapshot());
                ok = s.touchy() ? pathVerdict(s, vals, &e) : judge(s, vals, &e);
            }
            if (!ok) {
                if (!e.is()) e = Exc("ParseArgumentValidException", "", "invalid check function");
                if (e.cls == "ParseArgumentValidException") e.arg = a->names[0];
                o.rejectedDest = a->dest;
                o.rejectedBy = a->valid;
                return bail("valid", e);
            }
            if (isSwitch(a->kind)) {
                o.rejectedDest = a->dest;
                return bail("valid", Exc("ParseArgumentValidException", a->names[0], "invalid type option for use valid"));
            }
            if (isScalar(a->kind)) {
                if (!vals.empty()) a->scalar = vals[0];
            }
            else {
                size_t k = 0;
                for (auto& el : a->elems) {
                    if (isNested(a->kind)) {
                        for (auto& l : el.subs)
                            if (k < vals.size()) l.v = vals[k++];
                    }
                    else if (k < vals.size()) el.v = vals[k++];
                }
            }
        }
        if (a->kind != K_BOOL && a->kind != K_REV) {
            if (a->elems.empty()) a->snumber = toNum(a->scalar, &a->snum);
            for (auto& el : a->elems) {
                if (el.subs.empty()) el.number = toNum(el.v, &el.num);
                for (auto& l : el.subs) l.number = toNum(l.v, &l.num);
            }
        }
        if (a->dest >= 0) {
            DestState& d = w->dests[a->dest];
            if (d.spec.cb == "read") o.reads.push_back("D" + std::to_string(a->dest) + " " + snapshot());
            Exc e;
            bool custom = !d.spec.cb.empty();
            if (custom && ++nd == f.cbd) {
                DestState tmp = d;
                deliver(tmp, *a, &o, a->dest, &e);
                return bail("dest", cbExc(f.cbdKind));
            }
            deliver(d, *a, &o, a->dest, &e);
            o.destsWritten.insert(a->dest);
            if (e.is()) return bail("dest", e);
        }
        processed.insert(a->id);
    }
    o.stage = "ok";
    return o;
}

// --------------------------------------------------------------------- views

View MParser::settings() const {
    View v;
    v["set.version"] = versionText;
    v["set.alt"] = alt ? "1" : "0";
    v["set.strict"] = strict ? "1" : "0";
    v["set.hexc"] = hexc ? "1" : "0";
    v["set.vexc"] = vexc ? "1" : "0";
    v["set.bin"] = binaryName;
    v["set.desc"] = desc;
    v["set.epilog"] = epilog;
    if (addKnown) v["add"] = joinq(additional);
    v["usage"] = usage();
    return v;
}

View MParser::view(const MArg& a) const {
    View v;
    v["reg.names"] = joinq(a.names);
    v["cfg.action"] = ACT_NAMES[a.action];
    v["cfg.nargs"] = std::to_string(a.nargs);
    v["cfg.required"] = a.required ? "1" : "0";
    v["cfg.help"] = a.help;
    v["cfg.metavar"] = a.metavar;
    v["cfg.defaults"] = joinq(a.defaults);
    v["cfg.deftext"] = a.defText;
    if (!a.known) return v;
    v["val.exists"] = a.exist ? "1" : "0";
    v["val.bool"] = (a.kind == K_REV ? !a.exist : a.exist) ? "1" : "0";
    if (!isPos(a.kind)) v["val.count"] = std::to_string(a.count);
    v["val.str"] = a.str();
    v["val.size"] = std::to_string(a.elems.size());
    v["val.num"] = oddNumeral(a.str()) ? "~" : a.elems.empty() && a.snum ? numText(a.snumber) : "Exception(%e,is%20not%20a%20number)";
    if (isScalar(a.kind) || isFlat(a.kind) || isNested(a.kind)) v["val.vec"] = joinq(a.flat());
    else v["val.vec"] = Exc("Exception", "", "convertion to vector of string not authorized").text();
    if (isNested(a.kind)) {
        std::string t;
        for (auto& e : a.elems) {
            Strs r;
            for (auto& l : e.subs) r.push_back(l.v);
            t += joinq(r);
        }
        v["val.vv"] = t;
    }
    else v["val.vv"] = Exc("Exception", "", "convertion to vector of vector of string not authorized").text();
    for (size_t i = 0; i < a.elems.size(); ++i) {
        const Elem& e = a.elems[i];
        std::string k = "val.e" + std::to_string(i);
        std::string t = e.subs.empty() ? enc(e.v) + " d=" + enc(e.def) + " n=" + numShown(e.v, e.num, e.number)
                                       : "~ d=" + enc(e.def);
        t += " s=" + std::to_string(e.subs.size());
        for (auto& l : e.subs) t += " (" + enc(l.v) + " d=" + enc(l.def) + " n=" + numShown(l.v, l.num, l.number) + ")";
        if (e.subs.empty()) t += " vec=!";
        else {
            Strs r;
            for (auto& l : e.subs) r.push_back(l.v);
            t += " vec=" + joinq(r);
        }
        v[k] = t;
    }
    return v;
}

// ------------------------------------------------------------ plan operations

bool isConfigOp(const std::string& n) {
    static const std::set<std::string> c = {"add",   "flag",  "action",  "nargs",   "defaults", "required", "help",
                                            "metavar", "valid", "dest",  "remove",  "set",      "text",     "width"};
    return c.count(n) != 0;
}

Exc applyModel(World& world, MParser& m, const Op& op, std::vector<int>* freed) {
    const Strs& a = op.a;
    const std::string& n = op.name;
    Exc e;
    Strs list;
    if (n == "add" || n == "remove") {
        list.assign(a.begin() + 1, a.end());
        e = n == "add" ? m.add(list) : m.remove(list, freed);
    }
    else if (n == "set") {
        bool v = a[2] == "1";
        (a[1] == "alt" ? m.alt : a[1] == "strict" ? m.strict : a[1] == "hexc" ? m.hexc : m.vexc) = v;
    }
    else if (n == "text")
        (a[1] == "version" ? m.versionText : a[1] == "usage" ? m.usageText : a[1] == "desc" ? m.desc
                                                                        : a[1] == "epilog" ? m.epilog
                                                                                           : m.binaryName) = a[2];
    else if (n == "width") {
        m.pad = (size_t)atol(a[1].c_str());
        m.argsw = (size_t)atol(a[2].c_str());
        m.sep = (size_t)atol(a[3].c_str());
        m.helpw = (size_t)atol(a[4].c_str());
    }
    else {
        MArgP x = a[1] == "@" ? m.last : m.find(a[1]);
        if (!x) e = Exc("AccessDeniedException", a[1], "argument not found");
        else if (n == "flag") e = m.addFlag(x, a[2]);
        else if (n == "action") e = m.configure(x, x->nargs, actFromName(a[2]), x->defaults);
        else if (n == "nargs") e = m.configure(x, (size_t)strtoull(a[2].c_str(), nullptr, 10), x->action, x->defaults);
        else if (n == "defaults") {
            list.assign(a.begin() + 2, a.end());
            e = m.configure(x, x->nargs, x->action, list);
        }
        else if (n == "required") m.required(x, a[2] == "1");
        else if (n == "help") x->help = a[2];
        else if (n == "metavar") x->metavar = a[2];
        else if (n == "valid") {
            if (x->valid >= 0 && x->validOwned) freed->push_back(x->valid);
            if (a[2] == "none") x->valid = -1;
            else {
                x->valid = atoi(a[2].c_str());
                VSpec s;
                s.kind = a[4];
                s.p.assign(a.begin() + 5, a.end());
                if (!world.valids.count(x->valid)) world.valids[x->valid] = s;
            }
            x->validOwned = a[3] == "1";
        }
        else if (n == "dest") {
            x->dest = atoi(a[2].c_str());
            if (!world.dests.count(x->dest)) {
                DestState d;
                d.spec.type = a[3];
                d.spec.cb = a.size() > 4 ? a[4] : "";
                world.dests[x->dest] = d;
            }
            m.last = x;
        }
    }
    return e;
}

} // namespace sim
