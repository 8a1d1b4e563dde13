// C23: standard containers to values and back.
#include "cont.h"
SX_ENTRY(cont_seq) { N = __sx_param(1); int t = __sx_param(0); bool strict = t != 3 && t != 15 && t != 16 && t != 17 && t != 18; switch (t) { TYPES(RUN) } }
SX_ENTRY(cont_array) { N = 2; bool strict = true; switch (__sx_param(0)) { RUN(0, std::array<int, 1>) RUN(1, std::array<int, 3>) RUN(2, std::array<S, 2>) RUN(3, std::array<std::vector<int>, 2>) RUN(4, std::array<int, 0>) RUN(5, std::array<std::array<bool, 2>, 2>) RUN(6, std::array<std::map<S, int>, 2>) case 7: carray<int, 1>(); break; case 8: carray<int, 4>(); break; case 9: carray<S, 2>(); break; case 10: carray<double, 3>(); break; case 11: carray<bool, 3>(); break; case 12: carray<std::vector<int>, 2>(); break; } }
SX_ENTRY(cont_wrong) { N = 2; switch (__sx_param(0)) { TYPES(WRONG) } }
SX_ENTRY(cont_wrong_array) { switch (__sx_param(0)) { WRONG(0, std::array<int, 2>) WRONG(1, std::array<S, 1>) } }
SX_ENTRY(cont_null) { switch (__sx_param(0)) { TYPES(NUL) } }
SX_ENTRY(cont_length) { N = 2; switch (__sx_param(0)) { case 0: other_length<int, 3>(); break; case 1: other_length<S, 2>(); break; case 2: other_length<std::vector<int>, 2>(); break; case 3: other_length<double, 4>(); break; } }
