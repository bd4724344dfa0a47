// Instances of the runtime's comparison and search templates, one per operand shape.
#include <fu/vec.h>
#include <fu/view.h>
#include <fu/str.h>
#include <fu/vec/LEGACY_cmp.h>
#include <fu/vec/LEGACY_find.h>

typedef fu::vec<int> VI;   typedef fu::view<int> WI;
typedef fu::vec<char> VC;  typedef fu::view<char> WC;
typedef fu::vec<unsigned long> VL;

#define OPS(T, A, B) \
    bool eq##T(const A& a, const B& b) { return a == b; } \
    bool ne##T(const A& a, const B& b) { return a != b; }

#define VAL(T, A, B) \
    bool eq##T(A a, B b) { return a == b; } \
    bool ne##T(A a, B b) { return a != b; }

OPS(Ints, VI, VI)
OPS(Longs, VL, VL)
OPS(Strs, VC, VC)
VAL(IntViews, WI, WI)
VAL(StrViews, WC, WC)

#define ORD(T, A) \
    bool lt##T(A a, A b) { return a < b; } \
    bool gt##T(A a, A b) { return a > b; } \
    bool le##T(A a, A b) { return a <= b; } \
    bool ge##T(A a, A b) { return a >= b; }

ORD(Bytes, const VC&)
ORD(ByteViews, WC)

int findSub(WC a, WC b)                { return fu::lfind(a, b); }
int findSubFrom(WC a, WC b, int start) { return fu::lfind(a, b, start); }
int findStr(const VC& a, WC b)         { return fu::lfind(a, b); }
int findSubIn(WC a, WC b, int start, int end) { return fu::lfind(a, b, start, end); }
bool hasSub(WC a, WC b)                { return fu::has(a, b); }
bool startsWith(WC a, WC b)            { return fu::lmatch(a, b); }
