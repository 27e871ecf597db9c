// C06: histories of vector operations against a sequence model, with failing allocations and member copies
#include "sequences.h"
#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4();
void sim_run()
{
    pick_scale();
    if (scale() == 2 && sim::choose(4)) { run_1(); return; }
    switch (sim::choose(4)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    default: run_4(); break;
    }
}
#elif PARTNO == 1
void run_1() { run_vector_history<CellDef>(true, false, 24); }
#elif PARTNO == 2
void run_2() { switch (sim::choose(3)) { case 0: run_vector_history<Cell1U>(true, false, 24); break; case 1: run_vector_history<Cell3U>(true, false, 24); break; default: run_vector_history<Cell2U>(true, false, 24); } }
#elif PARTNO == 3
void run_3() { switch (sim::choose(5)) { case 4: run_vector_history<CellOdd>(true, false, 20); break; case 0: run_vector_history<CellHvy>(true, false, 20); break; case 1: run_vector_history<CellPak>(true, false, 20); break; case 2: run_vector_history<CellWid>(true, false, 20); break; default: run_vector_history<CellCus>(true, false, 24); } }
#elif PARTNO == 4
void run_4() { if (sim::choose(2)) run_vector_history<CellPrb>(true, true, 20); else run_vector_history<CellPrd>(true, true, 20); }
#endif
