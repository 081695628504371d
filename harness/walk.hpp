// Histories of moves, jumps, differences and comparisons of a random-access position.
#pragma once
#include "../engine/pbt.hpp"
#include <algorithm>
#include <thrust/advance.h>
#include <thrust/distance.h>
using namespace pbt;

// key(it) identifies what the position denotes; want[k] is that key for net position k
template <class It, class Key, class W>
void walk(Ctx& c, It begin, const W& want, Key key, const std::string& what)
{
    Src& s = c.s;
    long n = (long)want.size();
    It it = begin, mark = begin;
    long pos = 0, mpos = 0;
    int steps = (int)s.range(1, 25);
    std::string trace;
    auto check = [&] {
        if (pos < n) {
            auto k = key(*it);
            if (!(k == want[pos])) fail(what, trace, " denotes the wrong element at net position ", pos, " of ", n);
        }
        if (it - begin != pos) fail(what, trace, ": distance from the beginning is ", it - begin, ", expected ", pos);
        if (begin - it != -pos) fail(what, trace, ": distance to the beginning is ", begin - it, ", expected ", -pos);
        if (it - mark != pos - mpos) fail(what, trace, ": distance between two positions is ", it - mark, ", expected ", pos - mpos);
        if (thrust::distance(mark, it) != pos - mpos) fail(what, trace, ": thrust::distance differs");
        if ((it == mark) != (pos == mpos) || (it != mark) == (pos == mpos))
            fail(what, trace, ": equality of net positions ", pos, " and ", mpos, " of ", n, " is reported as ", it == mark);
        if ((it < mark) != (pos < mpos) || (it > mark) != (pos > mpos) || (it <= mark) != (pos <= mpos) || (it >= mark) != (pos >= mpos))
            fail(what, trace, ": ordering of net positions ", pos, " and ", mpos, " is wrong");
        It direct = begin + pos;
        if (!(direct == it) || direct != it) fail(what, trace, ": differs from begin + ", pos, " of ", n);
    };
    bool jumped = false, ended = false;
    for (int i = 0; i < steps; i++) {
        int op = (int)s.draw(12);
        // a signed distance that stays inside
        auto dist = [&]() -> long {
            int how = s.weighted({3, 2, 1, 1});
            if (how == 2) return n - pos;
            if (how == 3) return -pos;
            long r = how == 0 ? std::min(n, 6l) : n;
            long lo = std::max(-pos, -r), hi = std::min(n - pos, r);
            return s.around(lo, hi, 0);
        };
        long d;
        switch (op) {
        case 0:
            if (pos < n) ++it, pos++, trace += " ++";
            break;
        case 1:
            if (pos > 0) --it, pos--, trace += " --";
            break;
        case 2:
            if (pos < n) {
                It o = it++;
                if (o - begin != pos) fail(what, trace, ": post-increment returned position ", o - begin);
                pos++, trace += " x++";
            }
            break;
        case 3:
            if (pos > 0) {
                It o = it--;
                if (o - begin != pos) fail(what, trace, ": post-decrement returned position ", o - begin);
                pos--, trace += " x--";
            }
            break;
        case 4: d = dist(), it += d, pos += d, trace += cat(" +=", d), jumped = true; break;
        case 5: d = dist(), it -= -d, pos += d, trace += cat(" -=", -d), jumped = true; break;
        case 6: d = dist(), it = it + d, pos += d, trace += cat(" +", d), jumped = true; break;
        case 7: d = dist(), it = it - (-d), pos += d, trace += cat(" -", -d), jumped = true; break;
        case 8: d = dist(), thrust::advance(it, d), pos += d, trace += cat(" advance", d), jumped = true; break;
        case 9: mark = it, mpos = pos, trace += " mark"; break;
        case 10:
            d = dist();
            if (pos + d < n && !(key(it[d]) == want[pos + d])) fail(what, trace, ": subscript ", d, " at position ", pos, " is wrong");
            break;
        case 11: // all the way by single steps
            if (n <= 300) {
                if (s.flip())
                    while (pos < n) ++it, pos++;
                else
                    while (pos > 0) --it, pos--;
                trace += pos ? " ++end" : " --begin";
            }
            break;
        }
        ended |= pos == n;
        check();
    }
    c.note(trace);
    if (n >= 2 && jumped) c.nontrivial = true;
    if (ended) c.label("reaches the end");
}
