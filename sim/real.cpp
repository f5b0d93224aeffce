#include "real.h"

#include <iomanip>

namespace sim {

CbState g_cb;
std::map<int, VInfo> g_valid;
std::map<const void*, int> g_destId;

void throwExc(const Exc& e) {
    if (e.cls == "int") throw 42;
    if (e.cls == "std::bad_alloc") throw std::bad_alloc();
    if (e.cls == "ParseArgumentValidException") throw blet::Args::ParseArgumentValidException(e.what.c_str());
    if (e.cls == "ArgumentException") throw blet::Args::ArgumentException(e.arg.c_str(), e.what.c_str());
    if (e.cls == "HelpException") throw blet::Args::HelpException(e.what.c_str());
    throw std::runtime_error(e.what);
}

// ------------------------------------------------------------------- lists

#include "lists.h"

static unsigned realForm(unsigned form, size_t n) {
    switch (form) {
        case 1: return n <= 20 ? 1 : 0;
        case 4:
        case 5:
        case 6: return n >= 1 && n <= 24 ? form : 0;
        case 7: return n >= 2 && n <= 24 ? 7 : 0;
        case 8:
        case 9:
        case 10: return n == 1 ? form : 3;
        default: return form;
    }
}

std::string listFormName(unsigned form, const Strs& texts) {
    static const char* const names[LIST_FORMS] = {"push_back", "vector(...)", "+ string", "+ pointer", "array of pointers", "array of constant pointers",
                                                  "array of strings", "initializer list", "literal", "pointer", "string", "sized list"};
    return names[realForm(form, texts.size())];
}

blet::args::Vector* buildList(unsigned form, const Strs& texts) {
    using blet::args::Vector;
    struct Texts {  // the caller's memory, gone as soon as the list is built
        std::vector<HeapStr*> h;
        std::vector<const char*> t;
        explicit Texts(const Strs& s) {
            for (auto& x : s) {
                h.push_back(new HeapStr(x));
                t.push_back(h.back()->p);
            }
        }
        ~Texts() {
            for (auto x : h) delete x;
        }
    };
    Texts* c;
    {
        OutLib o;
        c = new Texts(texts);
    }
    struct Done {
        Texts* c;
        ~Done() {
            OutLib o;
            delete c;
        }
    } done = {c};
    const std::vector<const char*>& t = c->t;
    switch (realForm(form, texts.size())) {
        case 1: return new Vector(listHelper(t));
        case 2: {
            Vector v;
            for (size_t i = 0; i < t.size(); ++i) v + std::string(t[i]);
            return new Vector(v);
        }
        case 3: {
            Vector v;
            for (size_t i = 0; i < t.size(); ++i) {
                const char* p = t[i];
                if (i % 3 == 2 && texts[i].size() < 24) {
                    char a[24];
                    memcpy(a, p, texts[i].size() + 1);
                    const char(&r)[24] = a;
                    v + r;
                }
                else v + p;
            }
            return new Vector(v);
        }
        case 4:
        case 5:
        case 6: return new Vector(listArrays(form, t));
        case 7: return new Vector(listBraces(t));
        case 8:
            if (texts[0].size() < 64) {
                char a[64];
                memcpy(a, t[0], texts[0].size() + 1);
                const char(&r)[64] = a;
                return new Vector(r);
            }
            return new Vector(std::string(t[0]));
        case 9: {
            const char* p = t[0];
            return new Vector(p);
        }
        case 10: return new Vector(std::string(t[0]));
        case 11: {
            Vector v((int)t.size());
            for (size_t i = 0; i < t.size(); ++i) v[i] = t[i];
            return new Vector(v);
        }
        default: {
            Vector v;
            for (size_t i = 0; i < t.size(); ++i) v.push_back(t[i]);
            return new Vector(v);
        }
    }
}

std::string vecText(const std::vector<std::string>& v) { return joinq(v); }

// ---------------------------------------------------------------- observer

static std::string leafText(const RElem& e) {
    return enc(e.getString()) + " d=" + enc(e.getDefault()) + " n=" + numShown(e.getString(), e.isNumber(), e.isNumber() ? e.getNumber() : 0);
}

View viewOf(const RArg& a, Strs* self, bool light) {
    View v;
    auto bad = [&](const std::string& s) {
        if (self) self->push_back(s);
    };
    v["reg.names"] = joinq(a.getNameOrFlags());
    int act = (int)a.getAction();
    v["cfg.action"] = act >= 0 && act < 8 ? ACT_NAMES[act] : "?";
    v["cfg.nargs"] = std::to_string(a.getNargs());
    v["cfg.required"] = a.isRequired() ? "1" : "0";
    v["cfg.help"] = a.getHelp();
    v["cfg.metavar"] = a.getMetavar();
    v["cfg.defaults"] = joinq(a.getDefaults());
    v["cfg.deftext"] = a.getDefault();
    v["val.exists"] = a.isExists() ? "1" : "0";
    v["val.bool"] = a.operator bool() ? "1" : "0";
    v["val.count"] = std::to_string(a.count());
    std::string str = a.getString();
    v["val.str"] = str;
    std::string os = a.operator std::string();
    if (os != str) bad("operator std::string differs from getString");
    std::ostringstream oss;
    oss << a;
    if (oss.str() != str) bad("operator<< differs from getString");
    if (!light) {
        std::ostringstream wide, want;
        wide << std::left << std::setw(24) << std::setfill('.') << a << '|' << a;
        want << std::left << std::setw(24) << std::setfill('.') << str << '|' << str;
        if (wide.str() != want.str()) bad("operator<< with a width differs from getString");
    }
    if (a.getString() != str) bad("getString twice differs");
    v["val.size"] = std::to_string(a.size());
    if (a.empty() != (a.size() == 0)) bad("empty/size");
    // number
    double d = 0;
    bool callNum = !light || a.isNumber();
    Exc ne("Exception", "", "is not a number");
    if (callNum) ne = guarded([&] { d = a.getNumber(); });
    v["val.num"] = ne.is() ? ne.cls + "(" + enc(ne.arg) + "," + enc(ne.what) + ")" : numText(d);
    if (oddNumeral(str)) v["val.num"] = "~";
    if (a.isNumber() == ne.is()) bad("isNumber disagrees with getNumber");
    if (callNum) {
        double t = 0;
        Exc e2 = guarded([&] { t = a.operator double(); });
        if (e2.text() != ne.text() || (!ne.is() && t != d)) bad("numeric conversion differs from getNumber");
        if (!ne.is() && d > -1e9 && d < 1e9) {
            int n = a.operator int();
            if (n != (int)d) bad("int conversion differs from getNumber");
        }
    }
    // vector
    std::vector<std::string> vec;
    Exc ve("Exception", "", "convertion to vector of string not authorized");
    if (!light || a.getNargs() > 0) ve = guarded([&] { vec = a.operator std::vector<std::string>(); });
    v["val.vec"] = ve.is() ? ve.text() : joinq(vec);
    std::vector<std::vector<std::string> > vv;
    Exc vve("Exception", "", "convertion to vector of vector of string not authorized");
    if (!light || (a.getNargs() > 1 && (act == A_APPEND || act == A_EXTEND || act == A_INFINITE)))
        vve = guarded([&] { vv = a.operator std::vector<std::vector<std::string> >(); });
    if (vve.is()) v["val.vv"] = vve.text();
    else {
        std::string t;
        for (auto& r : vv) t += joinq(r);
        v["val.vv"] = t;
    }
    // elements
    Strs leaves;
    std::string joined;
    for (size_t i = 0; i < a.size(); ++i) {
        const RElem& e = a[i];
        if (&e != &a.at(i)) bad("operator[] differs from at");
        // a row has sub elements, its own text and number mean nothing
        std::string t = e.empty() ? leafText(e) : "~ d=" + enc(e.getDefault());
        t += " s=" + std::to_string(e.size());
        std::ostringstream eo;
        eo << e;
        if (eo.str() != e.getString()) bad("element operator<< differs from getString");
        Strs subs;
        for (size_t j = 0; j < e.size(); ++j) {
            t += " (" + leafText(e.at(j)) + ")";
            if (!(light && !e.at(j).isNumber()) && e.at(j).isNumber() != !guarded([&] { e.at(j).getNumber(); }).is()) bad("element isNumber");
            subs.push_back(e.at(j).getString());
        }
        std::vector<std::string> ev;
        Exc ee("Exception", "", "convertion to vector of string not authorized");
        if (!light || !e.empty()) ee = guarded([&] { ev = e.operator std::vector<std::string>(); });
        t += " vec=" + (ee.is() ? std::string("!") : joinq(ev));
        if (ee.is() && ee.text() != "Exception(%e,convertion%20to%20vector%20of%20string%20not%20authorized)")
            bad("element conversion refused with " + ee.text());
        if (!ee.is() && ev != subs) bad("element vector conversion differs from its elements");
        v["val.e" + std::to_string(i)] = t;
        if (i) joined += ", ";
        if (e.empty()) {
            leaves.push_back(e.getString());
            joined += e.getString();
        }
        else {
            joined += "(";
            for (size_t j = 0; j < subs.size(); ++j) {
                leaves.push_back(subs[j]);
                joined += (j ? ", " : "") + subs[j];
            }
            joined += ")";
        }
    }
    if (a.size() > 0 && joined != str) bad("getString differs from the elements");
    if (!ve.is() && a.size() > 0 && vec != leaves) bad("vector conversion differs from the elements");
    if (!ve.is() && a.size() == 0 && !vec.empty() && (vec.size() != 1 || vec[0] != str))
        bad("vector conversion differs from getString");
    if (ve.is() && ve.text() != "Exception(%e,convertion%20to%20vector%20of%20string%20not%20authorized)")
        bad("vector conversion refused with " + ve.text());
    if (vve.is() && vve.text() != "Exception(%e,convertion%20to%20vector%20of%20vector%20of%20string%20not%20authorized)")
        bad("vector of vector conversion refused with " + vve.text());
    if (!vve.is()) {
        if (vv.size() != a.size()) bad("vector of vector size");
        else
            for (size_t i = 0; i < vv.size(); ++i) {
                Strs s;
                for (size_t j = 0; j < a.at(i).size(); ++j) s.push_back(a.at(i).at(j).getString());
                if (s != vv[i]) bad("vector of vector row differs from element");
            }
        if (ve.is()) bad("nested list has no vector conversion");
    }
    Exc oe;
    if (light) return v;
    oe = guarded([&] { a[a.size() + 3]; });
    if (!oe.is()) bad("operator[] out of range accepted");
    return v;
}

View settingsOf(const blet::Args& a) {
    View v;
    v["set.version"] = a.getVersion();
    v["set.alt"] = a.isAlternative() ? "1" : "0";
    v["set.strict"] = a.isStrict() ? "1" : "0";
    v["set.hexc"] = a.isHelpException() ? "1" : "0";
    v["set.vexc"] = a.isVersionException() ? "1" : "0";
    v["set.bin"] = a.getBinaryName();
    v["set.desc"] = a.getDescription();
    v["set.epilog"] = a.getEpilog();
    v["add"] = joinq(a.getAdditionalArguments());
    v["usage"] = a.getUsage();
    return v;
}

// --------------------------------------------------------------- validators

static std::string leafNum(const RElem& e) { return "," + (e.isNumber() ? numText(e.getNumber()) : std::string("-")); }

static void readAll(const std::string& who) {
    if (!g_cb.running) return;
    const blet::Args& a = *g_cb.running;
    std::map<std::string, std::string> m;
    for (auto& n : g_cb.probe) {
        if (!a.argumentExists(n)) continue;
        Strs self;
        View v = viewOf(a.getArgument(n), &self);
        std::string nums;
        for (size_t i = 0; i < a[n].size(); ++i) {
            const RElem& e = a[n].at(i);
            if (e.empty()) nums += leafNum(e);
            for (size_t j = 0; j < e.size(); ++j) nums += leafNum(e.at(j));
        }
        m[n] = v["val.exists"] + ":" + enc(v["val.str"]) + ":" + enc(v["val.num"]) + ":" + enc(v["val.vec"]) + ":" + enc(v["val.vv"]) + ":" + enc(nums);
        for (auto& x : self) m["/self"] += enc(n) + " " + x + "; ";
        RArg copy(a.getArgument(n));
        (void)copy.getString();
    }
    View s = settingsOf(a);
    m["/usage"] = s["usage"];
    m["/add"] = s["add"];
    m["/version"] = s["set.version"];
    g_cb.reads.push_back(m);
    g_cb.readBy.push_back(who);
}

static const std::string& nestedAlone(unsigned k);
static std::map<unsigned, std::string>& nestCache() {
    static std::map<unsigned, std::string> c;
    return c;
}

static void runNested(unsigned k) {
    ++g_cb.nestedRuns;
    std::string got = nestedProgram(k);
    const std::string& want = nestCache()[k];
    if (got != want) g_cb.nest.push_back("program " + std::to_string(k) + ":\nalone:\n" + want + "nested:\n" + got);
}

static bool beforeCall(int id, std::vector<std::string>& args) {
    g_cb.vcalls.push_back("V" + std::to_string(id % TWIN) + " " + joinq(args));
    if (++g_cb.nv == g_cb.failV) {
        ++g_cb.fired;
        Exc e = cbExc(g_cb.failVKind);
        throwExc(e);
    }
    return true;
}

template<class Base>
struct Tracked : Base {
    int id;
    template<class... A>
    explicit Tracked(int i, A&&... a) : Base(std::forward<A>(a)...), id(i) {
        ++g_valid[id].born;
    }
    ~Tracked() {
        OutLib o;
        auto it = g_valid.find(id);
        if (it != g_valid.end()) {
            ++it->second.died;
            it->second.ptr = nullptr;
        }
    }
    bool isValid(std::vector<std::string>& args) override {
        OutLib o;
        beforeCall(id, args);
        std::string vals = joinq(args);
        bool ok = false;
        Exc e = guarded([&] {
            InLib in;
            ok = Base::isValid(args);
        });
        if (g_valid[id].spec.kind == "path")
            g_cb.pathCalls.push_back(std::to_string(id % TWIN) + "|" + vals + "|" + (e.is() ? e.text() : ok ? "ok" : "false"));
        if (e.is()) throwExc(e);
        return ok;
    }
};

struct Custom : blet::Args::IValid {
    int id;
    VSpec spec;
    explicit Custom(int i, const VSpec& s) : id(i), spec(s) { ++g_valid[id].born; }
    ~Custom() override {
        OutLib o;
        auto it = g_valid.find(id);
        if (it != g_valid.end()) {
            ++it->second.died;
            it->second.ptr = nullptr;
        }
    }
    bool isValid(std::vector<std::string>& args) override {
        OutLib o;
        beforeCall(id, args);
        if (spec.kind == "read") readAll("V" + std::to_string(id % TWIN));
        if (spec.kind == "nest") runNested((unsigned)atoi(spec.p[0].c_str()));
        Exc e;
        bool ok = judge(spec, args, &e);
        if (e.is()) throwExc(e);
        return ok;
    }
};

blet::Args::IValid* makeValid(int id, const VSpec& s) {
    VInfo& i = g_valid[id];
    i.spec = s;
    if (s.kind == "nest") {
        unsigned k = (unsigned)atoi(s.p[0].c_str());
        nestedAlone(k);
    }
    if (s.kind == "num") i.ptr = new Tracked<blet::Args::ValidNumber>(id);
    else if (s.kind == "minmax")
        i.ptr = new Tracked<blet::Args::ValidMinMax>(id, atof(s.p[0].c_str()), atof(s.p[1].c_str()));
    else if (s.kind == "choice") i.ptr = new Tracked<blet::Args::ValidChoise>(id, s.p);
    else if (s.kind == "path")
        i.ptr = new Tracked<blet::Args::ValidPath>(id, s.p[0] == "dir"    ? blet::Args::ValidPath::IS_DIR
                                                       : s.p[0] == "file" ? blet::Args::ValidPath::IS_FILE
                                                                          : blet::Args::ValidPath::ALL);
    else i.ptr = new Custom(id, s);
    return i.ptr;
}

// -------------------------------------------------------------- destinations

struct Cust {
    std::string s;
};

static int destIdOf(const void* p) {
    auto it = g_destId.find(p);
    return it == g_destId.end() ? -1 : it->second;
}
static std::map<int, DSpec>& destSpecs() {
    static std::map<int, DSpec> m;
    return m;
}

static void destCall(const void* p, bool ex, const std::string& text) {
    int id = destIdOf(p);
    g_cb.dcalls.push_back("D" + std::to_string(id % TWIN) + (ex ? " 1 " : " 0 ") + text);
    std::string cb = destSpecs()[id].cb;
    if (cb == "read") readAll("D" + std::to_string(id % TWIN));
    if (cb.compare(0, 4, "nest") == 0) runNested((unsigned)atoi(cb.c_str() + 4));
    if (++g_cb.nd == g_cb.failD) {
        ++g_cb.fired;
        throwExc(cbExc(g_cb.failDKind));
    }
}

template<class T>
struct CbOf {
    static void one(T& d, bool ex, const std::string& a) {
        OutLib o;
        destCall(&d, ex, enc(a));
        set(d, "<" + a + ">");
    }
    static void vec(std::vector<T>& d, bool ex, const std::vector<std::string>& a) {
        OutLib o;
        destCall(&d, ex, joinq(a));
        d.clear();
        for (auto& x : a) {
            T t;
            set(t, "<" + x + ">");
            d.push_back(t);
        }
    }
    static void vv(std::vector<std::vector<T> >& d, bool ex, const std::vector<std::vector<std::string> >& a) {
        OutLib o;
        std::string t;
        for (auto& r : a) t += joinq(r);
        destCall(&d, ex, t);
        d.clear();
        for (auto& r : a) {
            T x;
            set(x, "<" + joinq(r) + ">");
            d.push_back(std::vector<T>(1, x));
        }
    }
    static void set(std::string& d, const std::string& s) { d = s; }
    static void set(Cust& d, const std::string& s) { d.s = s; }
};

static std::string show(const std::string& s) { return s; }
static std::string show(const Cust& s) { return s.s; }
static std::string show(int v) { return std::to_string(v); }
static std::string show(long v) { return std::to_string(v); }
static std::string show(short v) { return std::to_string(v); }
static std::string show(char v) { return std::to_string((int)v); }
static std::string show(unsigned char v) { return std::to_string((int)v); }
static std::string show(unsigned short v) { return std::to_string(v); }
static std::string show(unsigned v) { return std::to_string(v); }
static std::string show(unsigned long v) { return std::to_string(v); }
static std::string show(long long v) { return std::to_string(v); }
static std::string show(unsigned long long v) { return std::to_string(v); }
static std::string show(long double v) { return numText((double)v); }
static std::string show(bool v) { return v ? "1" : "0"; }
static std::string show(double v) { return numText(v); }
static std::string show(float v) { return numText((double)v); }
static std::string show(const char* v) { return v ? std::string(v) : std::string("(null)"); }

template<class T>
static void zero(T& t) { t = T(); }
template<size_t N>
static void zero(char (&t)[N]) { memset(t, 0, N); }

template<class T, bool HasCb>
struct DOne : DestObj {
    T* p;
    DOne() { p = new T; }
    ~DOne() { delete p; }
    RArg& attach(RArg& a) override {
        if constexpr (HasCb) {
            if (!spec.cb.empty()) return a.dest(*p, &CbOf<T>::one);
        }
        return a.dest(*p);
    }
    Strs content() override { return Strs(1, show(*p)); }
    void reset() override { zero(*p); }
};
template<size_t N>
struct DChr : DestObj {
    char* raw;  // exactly N bytes
    DChr() { raw = (char*)malloc(N); }
    ~DChr() { free(raw); }
    RArg& attach(RArg& a) override { return a.dest(*reinterpret_cast<char(*)[N]>(raw)); }
    Strs content() override {
        if (memchr(raw, 0, N) == nullptr) return Strs(1, "(not terminated)");
        return Strs(1, std::string(raw));
    }
    void reset() override { memset(raw, 0x7e, N); }
};
template<class T, bool HasCb>
struct DVec : DestObj {
    std::vector<T>* p;
    DVec() { p = new std::vector<T>; }
    ~DVec() { delete p; }
    RArg& attach(RArg& a) override {
        if constexpr (HasCb) {
            if (!spec.cb.empty()) return a.dest(*p, &CbOf<T>::vec);
        }
        return a.dest(*p);
    }
    Strs content() override {
        Strs r;
        for (size_t i = 0; i < p->size(); ++i) r.push_back(show((T)(*p)[i]));
        return r;
    }
    void reset() override { std::vector<T>().swap(*p); }
};
template<class T, bool HasCb>
struct DVV : DestObj {
    std::vector<std::vector<T> >* p;
    DVV() { p = new std::vector<std::vector<T> >; }
    ~DVV() { delete p; }
    RArg& attach(RArg& a) override {
        if constexpr (HasCb) {
            if (!spec.cb.empty()) return a.dest(*p, &CbOf<T>::vv);
        }
        return a.dest(*p);
    }
    Strs content() override {
        Strs r;
        for (auto& row : *p) {
            Strs s;
            for (size_t i = 0; i < row.size(); ++i) s.push_back(show((T)row[i]));
            r.push_back(spec.cb.empty() ? joinq(s) : s.empty() ? "" : s[0]);
        }
        return r;
    }
    void reset() override { std::vector<std::vector<T> >().swap(*p); }
};

template<class D>
static DestObj* mk(const void** addr) {
    D* d = new D;
    *addr = d->p;
    return d;
}

DestObj* makeDest(int id, const DSpec& s) {
    if (s.cb.compare(0, 4, "nest") == 0) {
        unsigned k = (unsigned)atoi(s.cb.c_str() + 4);
        nestedAlone(k);
    }
    DestObj* d = nullptr;
    const void* addr = nullptr;
    const std::string& t = s.type;
    if (t == "str") d = mk<DOne<std::string, true> >(&addr);
    else if (t == "unsup") d = mk<DOne<Cust, true> >(&addr);
    else if (t == "int") d = mk<DOne<int, false> >(&addr);
    else if (t == "long") d = mk<DOne<long, false> >(&addr);
    else if (t == "short") d = mk<DOne<short, false> >(&addr);
    else if (t == "chr") d = mk<DOne<char, false> >(&addr);
    else if (t == "bool") d = mk<DOne<bool, false> >(&addr);
    else if (t == "dbl") d = mk<DOne<double, false> >(&addr);
    else if (t == "flt") d = mk<DOne<float, false> >(&addr);
    else if (t == "cstr") d = mk<DOne<const char*, false> >(&addr);
    else if (t == "uchr") d = mk<DOne<unsigned char, false> >(&addr);
    else if (t == "ushort") d = mk<DOne<unsigned short, false> >(&addr);
    else if (t == "uint") d = mk<DOne<unsigned, false> >(&addr);
    else if (t == "ulong") d = mk<DOne<unsigned long, false> >(&addr);
    else if (t == "llong") d = mk<DOne<long long, false> >(&addr);
    else if (t == "ullong") d = mk<DOne<unsigned long long, false> >(&addr);
    else if (t == "ldbl") d = mk<DOne<long double, false> >(&addr);
    else if (t == "vshort") d = mk<DVec<short, false> >(&addr);
    else if (t == "vushort") d = mk<DVec<unsigned short, false> >(&addr);
    else if (t == "vuchr") d = mk<DVec<unsigned char, false> >(&addr);
    else if (t == "vuint") d = mk<DVec<unsigned, false> >(&addr);
    else if (t == "vulong") d = mk<DVec<unsigned long, false> >(&addr);
    else if (t == "vllong") d = mk<DVec<long long, false> >(&addr);
    else if (t == "vullong") d = mk<DVec<unsigned long long, false> >(&addr);
    else if (t == "vflt") d = mk<DVec<float, false> >(&addr);
    else if (t == "vldbl") d = mk<DVec<long double, false> >(&addr);
    else if (t == "vchr") d = mk<DVec<char, false> >(&addr);
    else if (t == "vvlong") d = mk<DVV<long, false> >(&addr);
    else if (t == "vvuint") d = mk<DVV<unsigned, false> >(&addr);
    else if (t == "vvushort") d = mk<DVV<unsigned short, false> >(&addr);
    else if (t == "vvflt") d = mk<DVV<float, false> >(&addr);
    else if (t == "vvbool") d = mk<DVV<bool, false> >(&addr);
    else if (t == "vvchr") d = mk<DVV<char, false> >(&addr);
    else if (t == "vvullong") d = mk<DVV<unsigned long long, false> >(&addr);
    else if (t == "chr1") d = new DChr<1>;
    else if (t == "chr2") d = new DChr<2>;
    else if (t == "chr3") d = new DChr<3>;
    else if (t == "chr4") d = new DChr<4>;
    else if (t == "chr5") d = new DChr<5>;
    else if (t == "chr6") d = new DChr<6>;
    else if (t == "chr7") d = new DChr<7>;
    else if (t == "chr8") d = new DChr<8>;
    else if (t == "chr16") d = new DChr<16>;
    else if (t == "chr64") d = new DChr<64>;
    else if (t == "vstr") d = mk<DVec<std::string, true> >(&addr);
    else if (t == "vunsup") d = mk<DVec<Cust, true> >(&addr);
    else if (t == "vint") d = mk<DVec<int, false> >(&addr);
    else if (t == "vlong") d = mk<DVec<long, false> >(&addr);
    else if (t == "vdbl") d = mk<DVec<double, false> >(&addr);
    else if (t == "vbool") d = mk<DVec<bool, false> >(&addr);
    else if (t == "vcstr") d = mk<DVec<const char*, false> >(&addr);
    else if (t == "vvstr") d = mk<DVV<std::string, true> >(&addr);
    else if (t == "vvunsup") d = mk<DVV<Cust, true> >(&addr);
    else if (t == "vvint") d = mk<DVV<int, false> >(&addr);
    else if (t == "vvdbl") d = mk<DVV<double, false> >(&addr);
    else d = mk<DVV<const char*, false> >(&addr);  // vvcstr
    d->spec = s;
    d->id = id;
    g_destId[addr] = id;
    destSpecs()[id] = s;
    d->reset();
    return d;
}

// -------------------------------------------------------------- nested work

// programs nest to a fixed depth: number k runs k - 1 in one of its callbacks
// while k is no multiple of 4
static void goDeeper(unsigned k) {
    if (k % 4 != 0) runNested(k - 1);
}
static std::vector<unsigned>& nestStack() {
    static std::vector<unsigned> s;
    return s;
}
static void nestedDest(std::vector<std::string>& d, bool, const std::vector<std::string>& a) {
    d = a;
    d.push_back("#");
    goDeeper(nestStack().back());
}

struct Above10 : blet::Args::IValid {
    unsigned deeper;
    explicit Above10(unsigned k) : deeper(k) {}
    bool isValid(std::vector<std::string>& a) override {
        goDeeper(deeper);
        for (auto& x : a) {
            if (x == "throw") throw std::runtime_error("nested");
            x += "~";
        }
        return a.size() < 4;
    }
};

static const std::string& nestedAlone(unsigned k) {
    auto& c = nestCache();
    if (!c.count(k)) {
        if (k % 4 != 0) nestedAlone(k - 1);
        std::string s = nestedProgram(k);
        c[k] = s;
    }
    return c[k];
}

std::string nestedProgram(unsigned k) {
    Rng r(k * 7919u + 13);
    struct Level {
        explicit Level(unsigned k) { nestStack().push_back(k); }
        ~Level() { nestStack().pop_back(); }
    } level(k);
    std::string log;
    blet::Args a;
    a.setHelpException();
    a.setVersionException();
    if (r.chance(40)) a.setAlternative();
    if (r.chance(30)) a.setStrict();
    a.setVersion("nested version");
    a.addArgument("pos").help("nested positional");
    a.addArgument("-x").flag("--xray").help("nested x").defaults("dx");
    a.addArgument("-l").flag("--list").action(a.APPEND).valid(new Above10(k % 8 < 4 ? k : 0));
    a.addArgument("-b").action(a.STORE_TRUE);
    std::vector<std::string> dst;
    if (k % 8 >= 4) a.addArgument("-n").flag("--num").nargs(2).dest(dst, &nestedDest);
    else a.addArgument("-n").flag("--num").nargs(2).dest(dst);
    std::vector<std::string> pool = {"-x", "one", "--list", "two", "-b", "-l", "throw", "-n", "1", "2", "--", "zzz", "-h",
                                     "--xray=q", "--unknown", "pp"};
    for (int round = 0; round < 2; ++round) {
        Strs av(1, "nested");
        int n = r.range(0, 6);
        for (int i = 0; i < n; ++i) av.push_back(r.pick(pool));
        HeapArgv h(av);
        dst.clear();
        Exc e = guarded([&] { a.parseArguments(h.argc, h.v); });
        log += joinq(av) + " -> " + e.text() + "\n";
        if (!e.is()) {
            for (const char* n : {"pos", "-x", "-l", "-b", "-n"}) {
                View v = viewOf(a[n], nullptr);
                log += std::string(n) + "=" + v["val.exists"] + " " + v["val.str"] + " " + v["val.vec"] + "\n";
            }
            log += joinq(dst) + joinq(a.getAdditionalArguments()) + "\n";
        }
    }
    log += a.getUsage() + "\n";
    return log;
}

} // namespace sim
