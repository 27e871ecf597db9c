// C05: life time of member objects under histories with failing constructors, copies and allocations
#include "sequences.h"
#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4();
void sim_run()
{
    pick_scale();
    if (scale() == 0 && sim::chance(1, 400)) { pick_giant(); run_2(); return; }
    switch (sim::choose(5)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    case 3: run_4(); break;
    default: run_1(); break;
    }
}
#elif PARTNO == 1
void run_1() { run_grid_history<CellPrb>(true, true, 16); }
#elif PARTNO == 2
void run_2() { if (sim::choose(3)) run_grid_history<CellPrd>(true, true, 12); else run_grid_history<CellOdd>(true, true, 16); }
#elif PARTNO == 3
void run_3() { if (sim::choose(5) == 4) run_vector_history<CellOdd>(true, true, 20); else if (sim::choose(2)) run_vector_history<CellPrb>(true, true, 20); else run_vector_history<CellPrd>(true, true, 20); }
#elif PARTNO == 4
void run_4() { if (sim::choose(5) == 4) run_array_history<CellOdd, 2, 7, 12>(true, true, 20); else if (sim::choose(2)) run_array_history<CellPrb, 2, 7, 12>(true, true, 20); else run_array_history<CellPrd, 1, 6, 16>(true, true, 20); }
#endif
