// C04: histories of grid operations against a plain 3D array, with failing allocations
#include "machine.h"
#define PART(T) void run_##T()
#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4(); void run_5(); void run_6(); void run_7();
void sim_run()
{
    pick_scale();
    if (scale() == 0 && sim::chance(1, 300)) { pick_giant(); run_2(); return; }
    if (scale() == 2 && sim::choose(4)) { run_2(); return; }
    static const unsigned w[7] = { 4, 3, 4, 3, 3, 3, 2 };
    switch (sim::weighted(w)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    case 3: run_4(); break;
    case 4: run_5(); break;
    case 5: run_6(); break;
    default: run_7(); break;
    }
}
#elif PARTNO == 1
void run_1() { run_grid_history<CellCus>(true, false, 20); }
#elif PARTNO == 2
void run_2() { run_grid_history<CellDef>(true, false, 14); }
#elif PARTNO == 3
void run_3() { if (sim::choose(2)) run_grid_history<Cell3U>(true, false, 20); else run_grid_history<CellAsy>(true, false, 20); }
#elif PARTNO == 4
void run_4() { if (sim::choose(2)) run_grid_history<Cell2U>(true, false, 20); else run_grid_history<Cell1U>(true, false, 20); }
#elif PARTNO == 5
void run_5() { if (sim::choose(3)) run_grid_history<CellHvy>(true, false, 14); else run_grid_history<CellOdd>(true, false, 18); }
#elif PARTNO == 6
void run_6() { if (sim::choose(2)) run_grid_history<CellPak>(true, false, 20); else run_grid_history<CellWid>(true, false, 16); }
#elif PARTNO == 7
void run_7() { run_grid_history<CellPrb>(true, false, 12); }         // creating a cell needs memory of its own
#endif
