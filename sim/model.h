// Executable reference model of the parser, written from the documented
// behaviour. It shares no code with the library.
#ifndef SIM_MODEL_H_
#define SIM_MODEL_H_

#include <functional>
#include <memory>

#include "common.h"

namespace sim {

enum Act { A_NONE = 0, A_HELP, A_VERSION, A_TRUE, A_FALSE, A_APPEND, A_EXTEND, A_INFINITE };
extern const char* const ACT_NAMES[8];
int actFromName(const std::string& s);

enum Kind {
    K_HELP = 1,
    K_VERSION,
    K_BOOL,
    K_REV,
    K_SIMPLE,
    K_NUMBER,
    K_INF,
    K_MULTI,
    K_MULTIINF,
    K_MULTIN,
    K_MULTININF,
    K_POS1,
    K_POSN,
    K_POSINF,
    K_POSINFN
};
extern const char* const KIND_NAMES[16];
inline bool isPos(int k) { return k >= K_POS1; }
inline bool isNested(int k) { return k == K_MULTIN || k == K_MULTININF || k == K_POSINFN; }
inline bool isFlat(int k) {
    return k == K_NUMBER || k == K_INF || k == K_MULTI || k == K_MULTIINF || k == K_POSN || k == K_POSINF;
}
inline bool isScalar(int k) { return k == K_SIMPLE || k == K_POS1; }
inline bool isSwitch(int k) { return k >= K_HELP && k <= K_REV; }

struct Exc {
    std::string cls;  // "" = none
    std::string arg;
    std::string what;
    Exc() {}
    Exc(const std::string& c, const std::string& a, const std::string& w) : cls(c), arg(a), what(w) {}
    bool is() const { return !cls.empty(); }
    std::string text() const { return cls.empty() ? "none" : cls + "(" + enc(arg) + "," + enc(what) + ")"; }
};

struct Leaf {
    std::string v, def;
    bool num = false;
    double number = 0;
};
struct Elem : Leaf {
    std::vector<Leaf> subs;
};

// behaviour of one validator object
struct VSpec {
    std::string kind;
    Strs p;
    bool touchy() const { return kind == "path"; }
};

struct DSpec {
    std::string type;  // str int dbl bool cstr chr8 unsup vstr ... vvstr ...
    std::string cb;    // "" none, "cb" custom conversion
};

struct MArg {
    int id = 0;
    Strs names;
    int kind = K_SIMPLE;
    size_t nargs = 1;
    int action = A_NONE;
    bool required = false;
    std::string help, metavar;
    Strs defaults;
    int valid = -1;
    bool validOwned = true;
    int dest = -1;
    // values
    bool known = true;  // values are specified
    bool parsed = false;  // has been through a parse
    bool exist = false;
    size_t count = 0;
    bool countKnown = true;
    std::string scalar;
    bool snum = false;
    double snumber = 0;
    std::string defText;
    std::vector<Elem> elems;
    void rebuild();  // values := defaults
    Strs flat() const;
    std::string str() const;
};
typedef std::shared_ptr<MArg> MArgP;

typedef std::map<std::string, std::string> View;  // facet -> text

struct ParseOut {
    Exc exc;
    bool exited = false;
    std::string out;                  // stdout text when exited
    std::string stage;                // token help version required valid dest ok
    std::vector<std::string> vcalls;  // validator calls
    std::vector<std::string> dcalls;  // custom destination calls
    std::vector<std::string> reads;   // observations made by reading callbacks
    std::set<int> destsWritten;       // destinations delivered to
    int rejectedDest = -1;
    int rejectedBy = -1;
    std::vector<std::string> usageText;  // for help
};

struct DestState {
    DSpec spec;
    bool known = true;
    Strs items;   // textual content; nested rows are rendered as "[..]"
};

struct World;  // validators and destinations

struct MParser {
    World* w = nullptr;
    std::vector<MArgP> order;
    std::map<std::string, MArgP> idx;
    MArgP help, version, last;
    int nextId = 1;
    std::string binaryName, versionText, usageText, desc, epilog;
    bool alt = false, strict = false, hexc = false, vexc = false;
    size_t pad = 2, argsw = 20, sep = 2, helpw = 56;
    Strs additional;
    bool addKnown = true;
    bool valuesKnown = true;

    MArgP find(const std::string& n) const {
        auto it = idx.find(n);
        return it == idx.end() ? MArgP() : it->second;
    }
    void sort();
    Exc add(const Strs& names);
    Exc addFlag(MArgP a, const std::string& flag);
    Exc configure(MArgP a, size_t nargs, int action, const Strs& defaults);
    void required(MArgP a, bool v);
    Exc remove(const Strs& names, std::vector<int>* freedValidators);
    void clear(std::vector<int>* freedValidators);
    std::string usage() const;
    bool helpBlocked() const;  // known finding: neither -h nor --help is free and no help action
    // fault hooks: verdict of the n-th validator / destination callback
    struct Faults {
        int cbv = -1, cbd = -1;
        std::string cbvKind, cbdKind;
    };
    ParseOut parse(const Strs& argv, const Faults& f,
                   const std::function<bool(const VSpec&, Strs&, Exc*)>& pathVerdict);
    View settings() const;
    View view(const MArg& a) const;  // expected accessors of one argument
    void unknownAll();
    // positions of the tokens of the last parse, for the generator
};

struct World {
    std::map<int, VSpec> valids;
    std::map<int, DestState> dests;
};

// one configuration operation of a plan; validators released by it are
// added to freed
Exc applyModel(World& world, MParser& m, const Op& op, std::vector<int>* freed);
bool isConfigOp(const std::string& n);
// verdict of a validator; false -> Exc filled ("" cls = returned false)
bool judge(const VSpec& s, Strs& vals, Exc* e);
void deliver(DestState& d, const MArg& a, ParseOut* out, int id, Exc* e);
double toNum(const std::string& s, bool* ok);
std::string numText(double d);
bool oddNumeral(const std::string& text);
std::string numShown(const std::string& text, bool is, double d);
Exc cbExc(const std::string& kind);
Exc validateFlag(const std::string& f);
bool shortOpt(const std::string& s);
bool longOpt(const std::string& s);

} // namespace sim

#endif
