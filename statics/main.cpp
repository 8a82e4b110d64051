#include "phase.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "bigintegercpp/BigInteger.h"
extern BigInteger g_early_min, g_early_next, g_early_mul, g_early_pow, g_early_shift;
struct Last { ~Last() {} };
int main() {
    check_held("main");
    run_phase("main");
    hold("main");
    bool ok = g_early_min == BigInteger(INT32_MIN) && g_early_min.equals(BigInteger(INT32_MIN)) && g_early_min.to_string() == "-2147483648" && g_early_next.to_string() == "-2147483649" &&
              g_early_mul.to_string() == "340282366920938463426481119284349108225" && g_early_pow == BigInteger(1) && g_early_shift == BigInteger(-1) && (int) g_early_min == INT32_MIN;
    if (!ok) { printf("\nSTATIC-VIOL phase=main a global initialised before main holds a wrong value: %s %s %s %s %s\n", g_early_min.to_string().c_str(), g_early_next.to_string().c_str(),
                      g_early_mul.to_string().c_str(), g_early_pow.to_string().c_str(), g_early_shift.to_string().c_str()); fflush(stdout); _exit(77); }
    puts("MAIN-DONE");
    return 0;
}
