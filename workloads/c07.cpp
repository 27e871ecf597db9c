// C07: histories of fixed-capacity arrays against bounded sequences
#include "sequences.h"
#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4();
void sim_run()
{
    pick_scale();
    switch (sim::choose(4)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    default: run_4(); break;
    }
}
#elif PARTNO == 1
void run_1() { if (scale()) run_array_history<CellPak, 150, 1030, 257>(true, false, 12); else if (sim::choose(2)) run_array_history<CellDef, 5, 12, 33>(true, false, 24); else run_array_history<Cell1U, 1, 2, 40>(true, false, 24); }
#elif PARTNO == 2
void run_2() { switch (sim::choose(4)) { case 0: run_array_history<CellCus, 8, 16, 3>(true, false, 24); break; case 1: run_array_history<CellPak, 6, 31, 3>(true, false, 24); break; case 2: run_array_history<CellWid, 4, 11, 2>(true, false, 20); break; default: run_array_history<Cell2U, 4, 7, 64>(true, false, 24); } }
#elif PARTNO == 3
void run_3() { if (sim::choose(3) == 2) run_array_history<CellOdd, 3, 8, 13>(true, false, 20); else run_array_history<CellHvy, 4, 9, 1>(true, false, 20); }
#elif PARTNO == 4
void run_4() { if (sim::choose(2)) run_array_history<CellPrb, 3, 8, 13>(true, true, 20); else run_array_history<CellPrd, 1, 5, 20>(true, true, 20); }
#endif
