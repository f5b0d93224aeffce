// A program written against the public interface of Args: executes a plan and
// writes everything a user could observe into a log. Usable from C++98 on,
// with the library or with the single header, and from several threads (no
// global state). DRV_QUIET marks sections that are the driver's own work.
#ifndef DRIVE_DRIVER_H_
#define DRIVE_DRIVER_H_

#include <algorithm>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "blet/args.h"
#include "lists.h"

#ifndef DRV_QUIET
#define DRV_QUIET
#endif

namespace drv {

typedef std::vector<std::string> Strs;
typedef blet::args::Argument Arg;
typedef blet::args::ArgumentElement Elem;

inline std::string enc(const std::string& s) {
    DRV_QUIET;
    if (s.empty()) return "%e";
    std::string r;
    static const char* const H = "0123456789ABCDEF";
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i];
        if (c != 0 && (std::isalnum(c) || std::strchr("_./=+,:-", c) != NULL)) r += (char)c;
        else {
            r += '%';
            r += H[c >> 4];
            r += H[c & 15];
        }
    }
    return r;
}
inline std::string dec(const std::string& s) {
    if (s == "%e") return "";
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += (char)std::strtol(s.substr(i + 1, 2).c_str(), NULL, 16);
            i += 2;
        }
        else r += s[i];
    }
    return r;
}
inline std::string join(const Strs& v) {
    DRV_QUIET;
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + enc(v[i]);
    return r + "]";
}
inline std::string num(double d) {
    char b[64];
    std::sprintf(b, "%.17g", d);
    return b;
}
inline std::string num(long v) {
    char b[64];
    std::sprintf(b, "%ld", v);
    return b;
}
inline std::string num(int v) { return num((long)v); }
inline std::string num(std::size_t v) { return num((long)v); }

struct Op {
    std::string name;
    Strs a, f;
    bool fault(const std::string& k, std::string* v) const {
        for (std::size_t i = 0; i < f.size(); ++i)
            if (f[i].compare(0, k.size() + 1, k + "=") == 0) {
                *v = f[i].substr(k.size() + 1);
                return true;
            }
        return false;
    }
};
inline std::vector<Op> parsePlan(const std::string& text) {
    std::vector<Op> r;
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string t;
        Op o;
        while (ls >> t) {
            if (o.name.empty()) o.name = t;
            else if (t[0] == '!') o.f.push_back(dec(t.substr(1)));
            else o.a.push_back(dec(t));
        }
        if (!o.name.empty() && o.name != "prop") r.push_back(o);
    }
    return r;
}

// the exception being handled, as text
inline std::string caught() {
    try {
        throw;
    }
    catch (const blet::Args::HelpException& e) {
        return std::string("HelpException(,") + enc(e.what()) + ")";
    }
    catch (const blet::Args::VersionException& e) {
        return std::string("VersionException(,") + enc(e.what()) + ")";
    }
    catch (const blet::Args::ParseArgumentRequiredException& e) {
        return std::string("ParseArgumentRequiredException(") + enc(e.argument()) + "," + enc(e.what()) + ")";
    }
    catch (const blet::Args::ParseArgumentValidException& e) {
        return std::string("ParseArgumentValidException(") + enc(e.argument()) + "," + enc(e.what()) + ")";
    }
    catch (const blet::Args::ParseArgumentException& e) {
        return std::string("ParseArgumentException(") + enc(e.argument()) + "," + enc(e.what()) + ")";
    }
    catch (const blet::Args::AccessDeniedException& e) {
        return std::string("AccessDeniedException(") + enc(e.argument()) + "," + enc(e.what()) + ")";
    }
    catch (const blet::Args::ArgumentException& e) {
        return std::string("ArgumentException(") + enc(e.argument()) + "," + enc(e.what()) + ")";
    }
    catch (const blet::Args::Exception& e) {
        return std::string("Exception(,") + enc(e.what()) + ")";
    }
    catch (const std::bad_alloc&) {
        return "std::bad_alloc";
    }
    catch (const std::out_of_range&) {
        return "std::out_of_range";
    }
    catch (const std::exception& e) {
        return std::string("std::exception(") + enc(e.what()) + ")";
    }
    catch (int v) {
        return "int(" + num(v) + ")";
    }
    catch (...) {
        return "unknown";
    }
}

inline void throwKind(const std::string& k) {
    if (k == "int") throw 42;
    if (k == "pve") throw blet::Args::ParseArgumentValidException("custom refusal");
    if (k == "ae") throw blet::Args::ArgumentException("cbarg", "cb message");
    if (k == "ba") throw std::bad_alloc();
    if (k == "he") throw blet::Args::HelpException("cb help");
    throw std::runtime_error("boom");
}

// ------------------------------------------------------------- observation

inline std::string leaf(const Elem& e) {
    return enc(e.getString()) + " d=" + enc(e.getDefault()) + " n=" + (e.isNumber() ? num(e.getNumber()) : "-");
}

inline std::string config(const Arg& a) {
    std::string r = join(a.getNameOrFlags());
    r += " act=" + num((int)a.getAction()) + " nargs=" + num(a.getNargs()) + " req=" + (a.isRequired() ? "1" : "0");
    r += " help=" + enc(a.getHelp()) + " meta=" + enc(a.getMetavar()) + " defs=" + join(a.getDefaults());
    r += " def=" + enc(a.getDefault());
    return r;
}

inline std::string values(const Arg& a, bool refusals) {
    std::string r = a.isExists() ? "given" : "absent";
    r += a.operator bool() ? " true" : " false";
    const Strs& names = a.getNameOrFlags();
    if (!names.empty() && !names[0].empty() && names[0][0] == '-') r += " count=" + num(a.count());
    r += " str=" + enc(a.getString());
    r += " op=" + enc(a.operator std::string());
    {
        std::ostringstream o;
        o << a;
        r += " os=" + enc(o.str());
    }
    if (a.isNumber()) r += " num=" + num(a.getNumber()) + "/" + num(a.operator double()) + "/" + num(a.operator int());
    else if (refusals) {
        try {
            r += " num=" + num(a.getNumber());
        }
        catch (...) {
            r += " num=" + caught();
        }
    }
    if (refusals || a.getNargs() > 0) {
        try {
            std::vector<std::string> v = a.operator std::vector<std::string>();
            r += " vec=" + join(v);
        }
        catch (...) {
            r += " vec=" + caught();
        }
    }
    if (refusals || a.getNargs() > 1) {
        try {
            std::vector<std::vector<std::string> > v = a.operator std::vector<std::vector<std::string> >();
            r += " vv=";
            for (std::size_t i = 0; i < v.size(); ++i) r += join(v[i]);
        }
        catch (...) {
            r += " vv=" + caught();
        }
    }
    r += " size=" + num(a.size()) + (a.empty() ? " empty" : "");
    for (std::size_t i = 0; i < a.size(); ++i) {
        const Elem& e = a[i];
        r += " {";
        if (e.empty()) {
            r += leaf(e);
            std::ostringstream o;
            o << e;
            r += " os=" + enc(o.str());
        }
        for (std::size_t j = 0; j < e.size(); ++j) r += "(" + leaf(e.at(j)) + ")";
        if (!e.empty()) {
            try {
                std::vector<std::string> v = e.operator std::vector<std::string>();
                r += join(v);
            }
            catch (...) {
                r += caught();
            }
        }
        r += "}";
    }
    if (refusals) {
        try {
            (void)a[a.size() + 2];
            r += " range=none";
        }
        catch (...) {
            r += " range=" + caught();
        }
    }
    return r;
}

inline std::string settings(const blet::Args& a, bool additional) {
    std::string r = "version=" + enc(a.getVersion()) + " alt=" + (a.isAlternative() ? "1" : "0") + " strict=" +
                    (a.isStrict() ? "1" : "0") + " hexc=" + (a.isHelpException() ? "1" : "0") + " vexc=" +
                    (a.isVersionException() ? "1" : "0") + " bin=" + enc(a.getBinaryName()) + " desc=" + enc(a.getDescription()) +
                    " epilog=" + enc(a.getEpilog());
    if (additional) r += " add=" + join(a.getAdditionalArguments());
    return r;
}

// ------------------------------------------------------------------ program

class Driver;

struct DestBase {
    Driver* d;
    int id;
    std::string type, cb, slot, name;
    virtual ~DestBase() {}
    virtual Arg& attach(Arg& a) = 0;
    virtual std::string content() = 0;
    virtual void reset() = 0;
};

struct Slot {
    blet::Args* a;
    std::string last;
    bool known, parsed;
    Slot() : a(NULL), known(true), parsed(false) {}
};

struct VRec {
    blet::Args::IValid* p;
    bool handed, died;
    VRec() : p(NULL), handed(false), died(false) {}
};

class Driver {
  public:
    std::string log;
    std::map<std::string, Slot> slots;
    std::map<int, VRec> valids;
    std::map<int, DestBase*> dests;
    std::map<std::string, Arg*> copies;
    int nv, nd, failV, failD;
    std::string failVKind, failDKind;
    blet::Args* running;
    std::set<std::string> names;  // every name the plan mentioned
    bool refusals;
    bool silent;  // nothing is read after new and parse
    bool noExit;  // help and version requests throw instead of ending the process
    int every;    // observe after every n-th operation (and after each parse)
    int count;
    std::vector<int> released;

    Driver() : nv(0), nd(0), failV(-1), failD(-1), running(NULL), refusals(false), silent(false), noExit(false), every(1), count(0) {}
    ~Driver() { finish(); }

    void say(const std::string& s) {
        DRV_QUIET;
        log += s;
        log += '\n';
    }
    void finish() {
        for (std::map<std::string, Arg*>::iterator i = copies.begin(); i != copies.end(); ++i) delete i->second;
        copies.clear();
        for (std::map<std::string, Slot>::iterator i = slots.begin(); i != slots.end(); ++i) {
            delete i->second.a;
            i->second.a = NULL;
        }
        flushReleased();
        for (std::map<int, DestBase*>::iterator i = dests.begin(); i != dests.end(); ++i) delete i->second;
        dests.clear();
        for (std::map<int, VRec>::iterator i = valids.begin(); i != valids.end(); ++i)
            if (i->second.p != NULL) {
                blet::Args::IValid* p = i->second.p;
                i->second.p = NULL;
                delete p;
            }
        released.clear();
    }
    void flushReleased() {
        if (released.empty()) return;
        std::sort(released.begin(), released.end());
        std::string s = "released";
        for (std::size_t i = 0; i < released.size(); ++i) s += " V" + num(released[i]);
        released.clear();
        say(s);
    }
    void observe(const std::string& id, Slot& s) {
        if (s.a == NULL) return;
        const blet::Args& a = *s.a;
        say(id + " " + settings(a, s.known));
        say(enc(a.getUsage()));
        std::set<const Arg*> seen;
        for (std::set<std::string>::const_iterator i = names.begin(); i != names.end(); ++i) {
            if (!a.argumentExists(*i)) {
                if (refusals) try {
                        a.getArgument(*i);
                        say("found " + enc(*i));
                    }
                    catch (...) {
                        say(caught());
                    }
                continue;
            }
            const Arg& x = a.getArgument(*i);
            if (&x != &a[*i] || &x != &s.a->updateArgument(*i)) say("lookups differ " + enc(*i));
            if (!seen.insert(&x).second) {
                say(" " + enc(*i) + " (same)");
                continue;
            }
            say(" " + enc(*i) + " " + drv::config(x));
            if (s.known) say("   " + values(x, refusals));
        }
    }
    void afterAll(const std::string& id) {
        flushReleased();
        if (!silent) observe(id, slots[id]);
    }
    void force(Slot& s) {
        if (!noExit) return;
        s.a->setHelpException();
        s.a->setVersionException();
    }
    void run(const std::vector<Op>& ops) {
        for (std::size_t i = 0; i < ops.size(); ++i) one(ops[i]);
        finish();
    }
    Arg* ref(Slot& s, const std::string& r) {
        if (r == "@") {
            if (s.last.empty() || !s.a->argumentExists(s.last)) return NULL;
            return &s.a->updateArgument(s.last);
        }
        names.insert(r);
        return &s.a->updateArgument(r);
    }
    void one(const Op& op);
    void config(const Op& op, Slot& s);
    void parse(const Op& op, Slot& s);
    void vcall(int id, std::vector<std::string>& args) {
        say(" V" + num(id) + " " + join(args));
        if (++nv == failV) throwKind(failVKind);
    }
    void read();
    void nested(int k);
    bool listArg(const DestBase& d) {
        Slot& s = slots[d.slot];
        if (s.a == NULL || !s.a->argumentExists(d.name)) return false;
        const Arg& a = s.a->getArgument(d.name);
        return a.getNargs() > 1 || a.getAction() == blet::Args::APPEND || a.getAction() == blet::Args::EXTEND ||
               a.getAction() == blet::Args::INFINITE;
    }
    void dcall(DestBase* d, bool ex, const std::string& text) {
        bool vague = d->type[0] != 'v' && listArg(*d);
        say(" D" + num(d->id) + (ex ? " 1 " : " 0 ") + (vague ? "?" : text));
        if (d->cb == "read") read();
        if (d->cb.compare(0, 4, "nest") == 0) nested(std::atoi(d->cb.c_str() + 4));
        if (++nd == failD) throwKind(failDKind);
    }
};

inline void Driver::read() {
    if (running == NULL) return;
    const blet::Args& a = *running;
    std::string r = " read";
    for (std::set<std::string>::const_iterator i = names.begin(); i != names.end(); ++i)
        if (a.argumentExists(*i)) {
            r += " " + enc(*i) + (a[*i].isExists() ? "=1" : "=0");
            Arg copy(a[*i]);
            if (copy.getNameOrFlags() != a[*i].getNameOrFlags()) r += "!";
        }
    say(r + " " + settings(a, true));
    say(enc(a.getUsage()));
}

// ---------------------------------------------------------------- validators

template<class Base>
struct Tracked : public Base {
    Driver* d;
    int id;
    Tracked(Driver* dd, int i) : Base(), d(dd), id(i) {}
    template<class A>
    Tracked(Driver* dd, int i, const A& a) : Base(a), d(dd), id(i) {}
    template<class A, class B>
    Tracked(Driver* dd, int i, const A& a, const B& b) : Base(a, b), d(dd), id(i) {}
    ~Tracked() {
        VRec& r = d->valids[id];
        if (r.p != NULL) d->released.push_back(id);
        r.died = true;
        r.p = NULL;
    }
    bool isValid(std::vector<std::string>& args) {
        d->vcall(id, args);
        return Base::isValid(args);
    }
};

struct Custom : public blet::Args::IValid {
    std::string kind;
    Strs p;
    Driver* drv;
    Custom() : drv(NULL) {}
    virtual bool isValid(std::vector<std::string>& v) {
        if (kind == "read") {
            drv->read();
            return true;
        }
        if (kind == "nest") {
            drv->nested(std::atoi(p[0].c_str()));
            return true;
        }
        if (kind == "false") return false;
        bool hit = false;
        for (std::size_t i = 0; i < v.size(); ++i) hit = hit || v[i].find('!') != std::string::npos;
        if (kind == "falseif") return !hit;
        if (kind == "pveif" && hit) throw blet::Args::ParseArgumentValidException("has bang");
        if (kind == "rtif" && hit) throw std::runtime_error("bang");
        if (kind == "upper")
            for (std::size_t i = 0; i < v.size(); ++i)
                for (std::size_t j = 0; j < v[i].size(); ++j)
                    if (v[i][j] >= 'a' && v[i][j] <= 'z') v[i][j] = (char)(v[i][j] - 32);
        if (kind == "rev") std::reverse(v.begin(), v.end());
        if (kind == "set")
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = p[0] + num(i);
        if (kind == "grow") v.push_back("grown-extra-value-beyond-the-given-ones");
        if (kind == "shrink") {
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = "s" + v[i];
            if (!v.empty()) v.pop_back();
        }
        return true;
    }
};

inline blet::args::Vector vec(const Strs& s, std::size_t from) {
    // in one of the forms a list can be written, chosen by its contents
    std::vector<const char*> t;
    unsigned h = 2166136261u;
    for (std::size_t i = from; i < s.size(); ++i) {
        t.push_back(s[i].c_str());
        for (std::size_t j = 0; j <= s[i].size(); ++j) h = (h ^ (unsigned char)s[i].c_str()[j]) * 16777619u;
    }
    const unsigned form = (h >> 7) % 9;
    if (form == 1 && t.size() <= 20) return listHelper(t);
    if (form >= 4 && form <= 6 && !t.empty() && t.size() <= 24) return listArrays(form, t);
#if __cplusplus >= 201103L
    if (form == 7 && t.size() >= 2 && t.size() <= 24) return listBraces(t);
#endif
    blet::args::Vector v;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (form == 2) v + std::string(t[i]);
        else if (form == 3) v + t[i];
        else v.push_back(t[i]);
    }
    return v;
}

inline blet::Args::IValid* makeValid(Driver* d, int id, const std::string& kind, const Strs& p) {
    if (kind == "num") return new Tracked<blet::Args::ValidNumber>(d, id);
    if (kind == "minmax" && p.size() > 1)
        return new Tracked<blet::Args::ValidMinMax>(d, id, std::atof(p[0].c_str()), std::atof(p[1].c_str()));
    if (kind == "choice") return new Tracked<blet::Args::ValidChoise>(d, id, vec(p, 0));
    if (kind == "path" && !p.empty())
        return new Tracked<blet::Args::ValidPath>(d, id,
                                                  p[0] == "dir"    ? blet::Args::ValidPath::IS_DIR
                                                  : p[0] == "file" ? blet::Args::ValidPath::IS_FILE
                                                                   : blet::Args::ValidPath::ALL);
    Tracked<Custom>* c = new Tracked<Custom>(d, id);
    c->kind = kind;
    c->p = p;
    c->drv = d;
    return c;
}

inline void Driver::nested(int k) {
    blet::Args a;
    a.setHelpException();
    a.setVersionException();
    if (k & 1) a.setAlternative();
    if (k & 2) a.setStrict();
    a.addArgument("pos").help("nested positional");
    a.addArgument("-x").flag("--xray").help("nested x").defaults("dx");
    a.addArgument("-l").flag("--list").action(a.APPEND);
    a.addArgument("-b").action(a.STORE_TRUE);
    std::vector<std::string> dst;
    a.addArgument("-n").flag("--num").nargs(2).dest(dst);
    static const char* const pool[] = {"-x", "one", "--list", "two", "-b", "-l", "v", "-n", "1", "2", "--", "zzz", "-h", "--xray=q",
                                       "--unknown", "pp"};
    std::vector<std::string> av(1, "nested");
    unsigned s = (unsigned)k * 2654435761u + 12345u;
    for (int i = 0; i < k % 6; ++i) {
        s = s * 1103515245u + 12345u;
        av.push_back(pool[(s >> 16) % 16]);
    }
    std::vector<char*> p;
    for (std::size_t i = 0; i < av.size(); ++i) p.push_back(const_cast<char*>(av[i].c_str()));
    p.push_back(NULL);
    std::string r = " nested ";
    try {
        a.parseArguments((int)av.size(), &p[0]);
        r += a["-x"].getString() + a["-l"].getString() + num(a["-b"].count()) + join(dst) + join(a.getAdditionalArguments());
    }
    catch (...) {
        r += caught();
    }
    say(r);
}

// -------------------------------------------------------------- destinations

struct Cust {
    std::string s;
};
inline std::string show(const std::string& s) { return enc(s); }
inline std::string show(const Cust& s) { return enc(s.s); }
inline std::string show(const char* s) { return s == NULL ? "(null)" : enc(s); }
inline std::string show(double v) { return num(v); }
inline std::string show(long double v) { return num((double)v); }
inline std::string show(float v) { return num((double)v); }
inline std::string show(int v) { return num(v); }
inline std::string show(long v) { return num(v); }
inline std::string show(unsigned long v) { return num((long)v); }
inline std::string show(unsigned int v) { return num((long)v); }
inline std::string show(short v) { return num((long)v); }
inline std::string show(unsigned short v) { return num((long)v); }
inline std::string show(char v) { return num((long)v); }
inline std::string show(unsigned char v) { return num((long)v); }
inline std::string show(bool v) { return v ? "1" : "0"; }
inline void setText(std::string& d, const std::string& s) { d = s; }
inline void setText(Cust& d, const std::string& s) { d.s = s; }

// the value is the first member, so that a callback finds its holder
template<class T>
struct Holder {
    T v;
    DestBase* d;
};
template<class T>
inline DestBase* holderOf(T& v) {
    return reinterpret_cast<Holder<T>*>(&v)->d;
}
template<class T>
struct Cb {
    static void one(T& d, bool ex, const std::string& a) {
        DestBase* h = holderOf(d);
        h->d->dcall(h, ex, enc(a));
        setText(d, "<" + a + ">");
    }
    static void list(std::vector<T>& d, bool ex, const std::vector<std::string>& a) {
        DestBase* h = holderOf(d);
        h->d->dcall(h, ex, join(a));
        d.clear();
        for (std::size_t i = 0; i < a.size(); ++i) {
            T t;
            setText(t, "<" + a[i] + ">");
            d.push_back(t);
        }
    }
    static void rows(std::vector<std::vector<T> >& d, bool ex, const std::vector<std::vector<std::string> >& a) {
        DestBase* h = holderOf(d);
        std::string t;
        for (std::size_t i = 0; i < a.size(); ++i) t += join(a[i]);
        h->d->dcall(h, ex, t);
        d.clear();
        for (std::size_t i = 0; i < a.size(); ++i) {
            T x;
            setText(x, "<" + join(a[i]) + ">");
            d.push_back(std::vector<T>(1, x));
        }
    }
};
template<class T>
struct NoCb {
    static void (*one())(T&, bool, const std::string&) { return NULL; }
    static void (*list())(std::vector<T>&, bool, const std::vector<std::string>&) { return NULL; }
    static void (*rows())(std::vector<std::vector<T> >&, bool, const std::vector<std::vector<std::string> >&) { return NULL; }
};
template<class T>
struct HasCb {
    static void (*one())(T&, bool, const std::string&) { return &Cb<T>::one; }
    static void (*list())(std::vector<T>&, bool, const std::vector<std::string>&) { return &Cb<T>::list; }
    static void (*rows())(std::vector<std::vector<T> >&, bool, const std::vector<std::vector<std::string> >&) { return &Cb<T>::rows; }
};
template<class T, template<class> class C>
struct DOne : public DestBase {
    Holder<T> h;
    Arg& attach(Arg& a) {
        h.d = this;
        return cb.empty() ? a.dest(h.v) : a.dest(h.v, C<T>::one());
    }
    std::string content() { return show(h.v); }
    void reset() { h.v = T(); }
};
template<int N>
struct DChr : public DestBase {
    char v[N];
    Arg& attach(Arg& a) { return a.dest(v); }
    std::string content() {
        if (std::memchr(v, 0, N) == NULL) return "(not terminated)";
        return enc(v);
    }
    void reset() { std::memset(v, 0x7e, N); }
};
template<class T, template<class> class C>
struct DVec : public DestBase {
    Holder<std::vector<T> > h;
    Arg& attach(Arg& a) {
        h.d = this;
        return cb.empty() ? a.dest(h.v) : a.dest(h.v, C<T>::list());
    }
    std::string content() {
        std::string r;
        for (std::size_t i = 0; i < h.v.size(); ++i) r += " " + show((T)h.v[i]);
        return r;
    }
    void reset() { std::vector<T>().swap(h.v); }
};
template<class T, template<class> class C>
struct DRows : public DestBase {
    Holder<std::vector<std::vector<T> > > h;
    Arg& attach(Arg& a) {
        h.d = this;
        return cb.empty() ? a.dest(h.v) : a.dest(h.v, C<T>::rows());
    }
    std::string content() {
        std::string r;
        for (std::size_t i = 0; i < h.v.size(); ++i) {
            r += " [";
            for (std::size_t j = 0; j < h.v[i].size(); ++j) r += " " + show((T)h.v[i][j]);
            r += " ]";
        }
        return r;
    }
    void reset() { std::vector<std::vector<T> >().swap(h.v); }
};

inline DestBase* makeDest(const std::string& t) {
    if (t == "str") return new DOne<std::string, HasCb>;
    if (t == "unsup") return new DOne<Cust, HasCb>;
    if (t == "int") return new DOne<int, NoCb>;
    if (t == "uint") return new DOne<unsigned int, NoCb>;
    if (t == "long") return new DOne<long, NoCb>;
    if (t == "ulong") return new DOne<unsigned long, NoCb>;
    if (t == "short") return new DOne<short, NoCb>;
    if (t == "ushort") return new DOne<unsigned short, NoCb>;
    if (t == "chr") return new DOne<char, NoCb>;
    if (t == "uchr") return new DOne<unsigned char, NoCb>;
    if (t == "bool") return new DOne<bool, NoCb>;
    if (t == "dbl") return new DOne<double, NoCb>;
    if (t == "ldbl") return new DOne<long double, NoCb>;
    if (t == "flt") return new DOne<float, NoCb>;
    if (t == "cstr") return new DOne<const char*, NoCb>;
    if (t == "chr1") return new DChr<1>;
    if (t == "chr2") return new DChr<2>;
    if (t == "chr3") return new DChr<3>;
    if (t == "chr4") return new DChr<4>;
    if (t == "chr5") return new DChr<5>;
    if (t == "chr6") return new DChr<6>;
    if (t == "chr7") return new DChr<7>;
    if (t == "chr8") return new DChr<8>;
    if (t == "chr16") return new DChr<16>;
    if (t == "chr64") return new DChr<64>;
    if (t == "vstr") return new DVec<std::string, HasCb>;
    if (t == "vunsup") return new DVec<Cust, HasCb>;
    if (t == "vint") return new DVec<int, NoCb>;
    if (t == "vlong") return new DVec<long, NoCb>;
    if (t == "vdbl") return new DVec<double, NoCb>;
    if (t == "vbool") return new DVec<bool, NoCb>;
    if (t == "vcstr") return new DVec<const char*, NoCb>;
    if (t == "vshort") return new DVec<short, NoCb>;
    if (t == "vushort") return new DVec<unsigned short, NoCb>;
    if (t == "vuchr") return new DVec<unsigned char, NoCb>;
    if (t == "vuint") return new DVec<unsigned int, NoCb>;
    if (t == "vulong") return new DVec<unsigned long, NoCb>;
    if (t == "vflt") return new DVec<float, NoCb>;
    if (t == "vldbl") return new DVec<long double, NoCb>;
    if (t == "vchr") return new DVec<char, NoCb>;
    if (t == "vvlong") return new DRows<long, NoCb>;
    if (t == "vvuint") return new DRows<unsigned int, NoCb>;
    if (t == "vvushort") return new DRows<unsigned short, NoCb>;
    if (t == "vvflt") return new DRows<float, NoCb>;
    if (t == "vvbool") return new DRows<bool, NoCb>;
    if (t == "vvchr") return new DRows<char, NoCb>;
    if (t == "vvstr") return new DRows<std::string, HasCb>;
    if (t == "vvunsup") return new DRows<Cust, HasCb>;
    if (t == "vvint") return new DRows<int, NoCb>;
    if (t == "vvdbl") return new DRows<double, NoCb>;
    return new DRows<const char*, NoCb>;
}

// ----------------------------------------------------------------- operations

inline void Driver::config(const Op& op, Slot& s) {
    const Strs& a = op.a;
    const std::string& n = op.name;
    if (n == "add") {
        for (std::size_t i = 1; i < a.size(); ++i) names.insert(a[i]);
        Arg& r = s.a->addArgument(vec(a, 1));
        s.last = r.getNameOrFlags().empty() ? std::string() : r.getNameOrFlags()[0];
        return;
    }
    if (n == "remove") {
        s.a->removeArguments(vec(a, 1));
        return;
    }
    if (n == "set") {
        bool v = a[2] == "1";
        if (a[1] == "alt") s.a->setAlternative(v);
        else if (a[1] == "strict") s.a->setStrict(v);
        else if (a[1] == "hexc") s.a->setHelpException(v || noExit);
        else s.a->setVersionException(v || noExit);
        return;
    }
    if (n == "text") {
        if (a[1] == "version") s.a->setVersion(a[2]);
        else if (a[1] == "usage") s.a->setUsage(a[2].c_str());
        else if (a[1] == "desc") s.a->setDescription(a[2].c_str());
        else if (a[1] == "epilog") s.a->setEpilog(a[2].c_str());
        else s.a->setBinaryName(a[2].c_str());
        return;
    }
    if (n == "width") {
        s.a->setUsageWidth((std::size_t)std::atol(a[1].c_str()), (std::size_t)std::atol(a[2].c_str()),
                           (std::size_t)std::atol(a[3].c_str()), (std::size_t)std::atol(a[4].c_str()));
        return;
    }
    if (n == "valid") {
        blet::Args::IValid* p = NULL;
        int id = std::atoi(a[2].c_str());
        bool owned = a[3] == "1";
        if (a[2] != "none") {
            VRec& r = valids[id];
            if (r.handed || r.died) return;
            if (r.p == NULL) r.p = makeValid(this, id, a[4], Strs(a.begin() + 5, a.end()));
            p = r.p;
        }
        Arg* x = ref(s, a[1]);
        if (x == NULL) return;
        if (p != NULL && owned) valids[id].handed = true;
        if (owned) x->valid(p);
        else x->valid(p, false);
        return;
    }
    Arg* x = ref(s, a[1]);
    if (x == NULL) return;
    if (n == "flag") {
        names.insert(a[2]);
        x->flag(a[2].c_str());
    }
    else if (n == "required") x->required(a[2] == "1");
    else if (n == "help") x->help(a[2].c_str());
    else if (n == "metavar") x->metavar(a[2].c_str());
    else if (n == "dest") {
        int id = std::atoi(a[2].c_str());
        if (dests.count(id) != 0) return;
        DestBase* d = makeDest(a[3]);
        dests[id] = d;
        d->d = this;
        d->id = id;
        d->type = a[3];
        d->cb = a.size() > 4 ? a[4] : "";
        d->slot = a[0];
        d->name = x->getNameOrFlags()[0];
        d->reset();
        Arg& r = d->attach(*x);
        s.last = r.getNameOrFlags()[0];
    }
    else {
        if (n == "nargs" && a[2] == "43" && x->getAction() != blet::Args::NONE) return;
        if (s.parsed) s.known = false;
        if (n == "action") {
            static const char* const A[] = {"NONE", "HELP", "VERSION", "STORE_TRUE", "STORE_FALSE", "APPEND", "EXTEND", "INFINITE"};
            for (int i = 0; i < 8; ++i)
                if (a[2] == A[i]) x->action((blet::Args::eAction)i);
        }
        else if (n == "nargs") x->nargs((std::size_t)std::strtoul(a[2].c_str(), NULL, 10));
        else if (n == "defaults") x->defaults(vec(a, 2));
    }
}

inline void Driver::parse(const Op& op, Slot& s) {
    nv = nd = 0;
    failV = failD = -1;
    std::string f;
    if (op.fault("cbv", &f)) {
        failV = std::atoi(f.c_str());
        failVKind = f.substr(f.find(':') + 1);
    }
    if (op.fault("cbd", &f)) {
        failD = std::atoi(f.c_str());
        failDKind = f.substr(f.find(':') + 1);
    }
    for (std::map<int, DestBase*>::iterator i = dests.begin(); i != dests.end(); ++i) i->second->reset();
    std::vector<std::string> av(op.a.begin() + 1, op.a.end());
    std::vector<char*> p;
    for (std::size_t i = 0; i < av.size(); ++i) p.push_back(const_cast<char*>(av[i].c_str()));
    p.push_back(NULL);
    names.insert("-h");
    names.insert("--help");
    running = s.a;
    bool ok = false;
    try {
        s.a->parseArguments((int)av.size(), &p[0]);
        say("parsed");
        ok = true;
    }
    catch (...) {
        say(caught());
    }
    running = NULL;
    s.parsed = true;
    s.known = ok;
    if (ok)
        for (std::map<int, DestBase*>::iterator i = dests.begin(); i != dests.end(); ++i) {
            if (i->second->type[0] != 'v' && listArg(*i->second)) continue;
            say(" dest " + num(i->first) + " " + i->second->content());
        }
}

inline void Driver::one(const Op& op) {
    {
        DRV_QUIET;
        std::string t = "> " + op.name;
        for (std::size_t i = 0; i < op.a.size(); ++i) t += " " + enc(op.a[i]);
        say(t);
    }
    const std::string& n = op.name;
    if (op.a.empty()) return;
    if (n == "fs") return;
    if (n == "dropcopy") {
        std::map<std::string, Arg*>::iterator i = copies.find(op.a[0]);
        if (i != copies.end()) {
            delete i->second;
            copies.erase(i);
        }
        flushReleased();
        return;
    }
    Slot& s = slots[op.a[0]];
    if (n == "new") {
        if (s.a != NULL) return;
        s = Slot();
        s.a = new blet::Args;
        force(s);
        afterAll(op.a[0]);
        return;
    }
    if (s.a == NULL) return;
    if (n == "destroy") {
        delete s.a;
        s.a = NULL;
        flushReleased();
        return;
    }
    if (n == "clear") {
        s.a->clear();
        force(s);
        s.known = true;
        s.parsed = false;
        s.last = "";
    }
    else if (n == "parse" || n == "ptwin") parse(op, s);
    else if (n == "get") {
        if (op.a.size() < 3) return;
        try {
            const Arg& x = s.a->getArgument(op.a[1]);
            if (op.a[2] == "usage") say(enc(s.a->getUsage()));
            else if (s.known) say(values(x, true));
        }
        catch (...) {
            say(caught());
        }
        return;
    }
    else if (n == "copy") {
        if (op.a.size() < 3 || copies.count(op.a[2]) != 0 || !s.a->argumentExists(op.a[1])) return;
        Arg* c = new Arg(s.a->getArgument(op.a[1]));
        copies[op.a[2]] = c;
        say(" copy " + drv::config(*c));
        if (s.known) say("   " + values(*c, true));
        return;
    }
    else {
        try {
            config(op, s);
            say("ok");
        }
        catch (...) {
            say(caught());
        }
    }
    if (++count % every == 0 || n == "parse") afterAll(op.a[0]);
    else flushReleased();
}

// one query of a const parser; what: see READS
static const char* const READS[] = {"all",  "get",  "op",      "config", "usage", "settings", "copy", "vec",
                                    "vv",   "num",  "stream",  "elems",  "add",   "exists",   "str",  "count",
                                    "bool", "defs", "missing", "elemcopy"};
static const int READS_N = 20;
inline std::string readOne(const blet::Args& a, const std::string& what, const std::string& name) {
    try {
        if (what == "usage") return enc(a.getUsage());
        if (what == "settings") return settings(a, true);
        if (what == "add") {
            std::vector<std::string> v = a.getAdditionalArguments();
            return join(v);
        }
        if (what == "missing") {
            try {
                a.getArgument("--there-is-no-such-argument");
            }
            catch (...) {
                return caught();
            }
            return "found";
        }
        if (what == "exists") return a.argumentExists(name) ? "yes" : "no";
        const Arg& x = what == "op" ? a[name] : a.getArgument(name);
        if (what == "all" || what == "op") return config(x) + " " + values(x, true);
        if (what == "config") return config(x);
        if (what == "get") return values(x, false);
        if (what == "copy") {
            Arg c(x);
            return config(c) + " " + values(c, true);
        }
        if (what == "vec") {
            std::vector<std::string> v = x;
            return join(v);
        }
        if (what == "vv") {
            std::vector<std::vector<std::string> > v = x;
            std::string r;
            for (std::size_t i = 0; i < v.size(); ++i) r += join(v[i]);
            return r;
        }
        if (what == "num") return num(x.getNumber()) + " " + num(x.operator double()) + (x.isNumber() ? " yes" : " no");
        if (what == "stream") {
            std::ostringstream o;
            o << x << '|' << x;
            return enc(o.str());
        }
        if (what == "elems") {
            std::string r = num(x.size());
            for (std::size_t i = 0; i < x.size(); ++i) {
                r += " " + leaf(x[i]) + "/" + num(x[i].size());
                for (std::size_t j = 0; j < x[i].size(); ++j) r += "(" + leaf(x[i][j]) + ")";
            }
            return r;
        }
        if (what == "elemcopy") {
            std::string r;
            for (std::size_t i = 0; i < x.size(); ++i) {
                Elem e(x[i]);
                r += " " + leaf(e) + "/" + num(e.size());
                for (std::size_t j = 0; j < e.size(); ++j) r += "(" + leaf(e[j]) + ")";
            }
            return r;
        }
        if (what == "str") return enc(x.getString()) + " " + enc(x.operator std::string());
        if (what == "count") return (x.isExists() ? "given " : "absent ") + (name[0] == '-' ? num(x.count()) : std::string());
        if (what == "bool") return x ? "true" : "false";
        if (what == "defs") return enc(x.getDefault()) + join(x.getDefaults());
        return "?";
    }
    catch (...) {
        return caught();
    }
}

} // namespace drv

#endif
