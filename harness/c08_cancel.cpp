// C08: an analysis cancelled at any poll of the cancellation flag leaves no trace once one is allowed to complete.
#include "ws_model.h"

static Run* R;

struct Polls
{
    const void* flag = nullptr;
    long n = 0, at = -1; // the flag is set when it is read for the at-th time
};
static Polls polls;

static void cancelled(Server& s, Model& m, const Ev& e, long at)
{
    polls = { &s.cancel, 0, at };
    drive(s, m, e);
    s.cancel.poke(false);
    polls.flag = nullptr;
}

struct Step
{
    Ev e;
    int mode; // 0 completes, 1 cancelled at every poll, 2 cancelled from the beginning, 3 only requests
};
static std::string str(const Step& s)
{
    if (s.mode == 3)
        return "ask";
    return std::string(s.mode == 1 ? "!" : s.mode == 2 ? "!!" : "") + s.e.str();
}

static void one(const char* fam, const std::vector<Ev>& base, const std::vector<Step>& steps)
{
    R->check(
        [&] {
            std::string n = fam;
            for (auto& e : base)
                n += " " + e.str();
            n += " :";
            for (auto& s : steps)
                n += " " + str(s);
            return n;
        },
        [&] {
            // every combination of cancellation points
            std::vector<long> at(steps.size(), 0), max(steps.size(), 0);
            for (bool more = true; more;)
            {
                Model m;
                disk->set(m.files());
                std::string what;
                {
                    Server s(*disk);
                    s.callers = one_program(base);
                    for (auto& st : steps)
                        s.callers = s.callers && one_program({ st.e });
                    for (auto& e : base)
                        drive(s, m, e);
                    for (size_t i = 0; i < steps.size(); ++i)
                    {
                        auto& st = steps[i];
                        R->tick();
                        if (st.mode == 3)
                            snapshot(s, m);
                        else if (st.mode == 0)
                            drive(s, m, st.e);
                        else
                        {
                            cancelled(s, m, st.e, st.mode == 2 ? 0 : at[i]);
                            if (st.mode == 1)
                            {
                                max[i] = polls.n;
                                what += " " + str(st) + " at poll " + std::to_string(at[i]);
                            }
                        }
                        ++R->transitions;
                    }
                    auto got = snapshot(s, m);
                    auto& want = fresh(m, s.callers);
                    if (getenv("VERIF_PRINT"))
                        printf("%s\n%s--\n", what.c_str(), s.diags().c_str());
                    ++R->validated;
                    R->state(m.str() + what);
                    require(got == want, "cancelled" + what + ": " + first_diff(got, want));
                }
                // next combination; a point beyond the last poll means that the event completed
                more = false;
                for (size_t i = 0; i < steps.size(); ++i)
                {
                    if (steps[i].mode != 1)
                        continue;
                    if (at[i] < max[i])
                    {
                        ++at[i];
                        more = true;
                        break;
                    }
                    at[i] = 0;
                }
            }
            R->interesting();
        });
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 1);
    R = &r;
    Disk d;
    disk = &d;
    std::atomic<bool>::on_load() = [](const void* f) {
        if (f != polls.flag)
            return;
        if (polls.n++ == polls.at)
            const_cast<std::atomic<bool>*>(static_cast<const std::atomic<bool>*>(f))->poke(true);
    };
    const std::string P = "P", Q = "Q", M = "lib/MAC", C = "lib/CPY", N = "lib/NAC";
    const std::vector<std::vector<Ev>> bases {
        {},
        { { 'o', P } },
        { { 'w', N, 2 } },
        { { 'w', N, 2 }, { 'o', P } },
        { { 'o', P }, { 'o', Q } },
        { { 'o', P }, { 'o', M } },
        { { 'o', M }, { 'c', M, 2 } },
        { { 'o', P }, { 'c', P, 1 }, { 'o', C } },
        { { 'o', P }, { 'o', Q }, { 'o', M } },
        { { 'w', N, 2 }, { 'o', P }, { 'o', M } },
    };
    std::vector<Ev> all { { 'o', P }, { 'x', P }, { 'o', Q }, { 'x', Q }, { 'o', M }, { 'x', M }, { 'o', C }, { 'x', C } };
    for (auto& f : { P, Q, M, C })
        all += changes('c', f);
    for (auto& base : bases)
    {
        Model m;
        for (auto& e : base)
            m.apply(e);
        for (auto& e1 : all)
        {
            if (!m.enabled(e1) && !(e1.kind == 'c' && m.open.count(e1.file)))
                continue;
            Model m1 = m;
            m1.apply(e1);
            // the request that cancels it: the document is opened or changed
            auto finals = [&](const Model& mm) {
                std::vector<Ev> f;
                for (auto& e : all)
                    if (e.file == e1.file && (e.kind == 'o' ? mm.enabled(e) : e.kind == 'c' && mm.open.count(e.file)))
                        f.push_back(e);
                return f;
            };
            for (auto& e3 : finals(m1))
            {
                one("cancel", base, { { e1, 1 }, { e3, 0 } });
                one("cancel", base, { { e1, 1 }, { {}, 3 }, { e3, 0 } });
            }
            for (auto& e2 : all)
            {
                if (!m1.enabled(e2))
                    continue;
                Model m2 = m1;
                m2.apply(e2);
                for (auto& e3 : finals(m2))
                {
                    if (e2.file != e1.file)
                        one("between", base, { { e1, 1 }, { e2, 0 }, { e3, 0 } });
                    else
                    {
                        one("queued", base, { { e1, 1 }, { e2, 2 }, { e3, 0 } });
                        if (r.thorough() || (base.size() <= 1 && e2.v <= 1))
                            one("twice", base, { { e1, 1 }, { e2, 1 }, { e3, 0 } });
                    }
                }
            }
        }
    }
    return r.finish();
}
