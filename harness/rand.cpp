// V02: random number helpers.
#include "../engine/pbt.hpp"
#include <set>

#include "random.hpp"

using namespace pbt;

PROP(V02)
{
    Src& s = c.s;
    if (s.chance(1, 50)) {
        randomize();
        c.label("reseeded");
    }
    global_urng().seed((unsigned)s.draw(1u << 30));
    auto saved = global_urng();
    if (&global_urng() != &global_urng()) fail("the generator is not the same object twice");
    int n = (int)s.range(20, 60);
    int kind = (int)s.draw(3);
    if (kind == 0) {
        long R = s.pick({5L, 100L, 100000L, 2147483647L});
        long a = s.around(-R, R, 0), b = std::min(2147483647L, a + (long)s.draw((uint64_t)s.pick({1L, 6L, 1000L, 4294967295L})));
        c.note("integers in [", a, ",", b, "]");
        c.label("integers");
        bool small = b - a <= 5;
        if (small) n = 500;
        std::vector<int> x(n);
        std::set<int> seen;
        for (auto& v : x) {
            v = pick((int)a, (int)b);
            if (v < a || v > b) fail("pick(", a, ",", b, ") gave ", v);
            seen.insert(v);
        }
        // every value of a short range turns up
        if (small && (long)seen.size() != b - a + 1) fail("500 picks from [", a, ",", b, "] gave only ", seen.size(), " different values");
        if (b - a >= 100000 && seen.size() < 5) fail(n, " picks from [", a, ",", b, "] gave only ", seen.size(), " different values");
        global_urng() = saved;
        for (auto v : x) {
            int w = pick((int)a, (int)b);
            if (v != w) fail("the same generator state gives ", v, " once and ", w, " later");
        }
        if (b > a) c.nontrivial = true;
    } else {
        double R = s.pick({1.0, 1e-6, 1e6, 1e30}), a = R * (double)s.around(-16, 16, 0) / 4, b = a + R * (double)s.range(1, 32) / 8;
        bool dflt = kind == 2 && s.flip(), half = kind == 2 && !dflt;
        if (dflt) a = 0, b = 1;
        if (half) a = b > 1 ? 0 : a, b = 1 > a ? 1 : b;
        half = half && b == 1;
        c.note("reals in [", a, ",", b, ")", dflt ? " by default" : half ? " to one by default" : "");
        c.label(dflt ? "default range" : half ? "default end" : "reals");
        auto one = [&] { return dflt ? pick() : half ? pick(a) : pick(a, b); };
        n = 400;
        std::vector<double> x(n);
        int lowhalf = 0;
        for (auto& v : x) {
            v = one();
            if (!(v >= a && v <= b)) fail("pick(", a, ",", b, ") gave ", v);
            lowhalf += v < a + (b - a) / 2;
        }
        // both halves of the range turn up
        if (lowhalf < 60 || lowhalf > 340) fail(lowhalf, " of 400 picks from [", a, ",", b, ") are in its lower half");
        global_urng() = saved;
        for (auto v : x) {
            double w = one();
            if (v != w) fail("the same generator state gives ", v, " once and ", w, " later");
        }
        c.nontrivial = true;
    }
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
