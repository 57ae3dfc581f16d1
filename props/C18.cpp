// C18: messages, addresses, attachments, credentials and error objects behave as values.
#include "values.h"

static void run(pbt::Src &s, pbt::Ctx &c) {
    val::Stats st = val::any_history(s, c, 24);
    c.nontrivial = st.ops >= 4 && st.assigns >= 1;
    if (st.assigns) c.label("assignments");
    if (st.moves) c.label("moves");
    // equality over a small alphabet, so that equal and nearly equal pairs are common
    static const std::vector<std::string> e{"a@example.com", "A@example.com", "a@example.org"}, n{"", "A", "a", "A ", "AB"};
    val::Obs x{s.pick(e), s.pick(n)}, y{s.pick(e), s.pick(n)};
    if (s.chance(1, 3)) {                          // long texts that differ only far behind, or not at all
        std::string p(static_cast<size_t>(s.range(1, s.chance(1, 20) ? 5000 : 300)), static_cast<char>('a' + s.index(3)));
        size_t at = s.index(2);
        if (at) { x[1] = p + x[1]; y[1] = p + y[1]; if (s.chance(1, 2)) y[0] = x[0]; }
        else { x[0] = p + x[0]; y[0] = p + y[0]; if (s.chance(1, 2)) y[1] = x[1]; }
        c.label("long pair");
    }
    jed_utils::MessageAddress a(x[0].c_str(), x[1].c_str()), b(y[0].c_str(), y[1].c_str());
    val::relate(c, a, x, b, y);
    jed_utils::cpp::MessageAddress ca(x[0], x[1]), cb(y[0], y[1]);
    val::relate(c, ca, x, cb, y);
    if (x == y) c.label("equal pair");
}
namespace pbt {
Property property{"C18",
    "A case is a random history of at least 4 operations (construct, copy, move, assign, self-assign, set, swap, destroy, convert) over four objects of one of 11 classes; "
    "after every operation every live object's getters are compared with the model. Non-trivial: the history has at least one assignment.",
    run, 150000, 1500000};
}
