// C07: after any history of editor and disk events the server's results are those of a fresh server.
#include "ws_model.h"

static Run* R;
static void one(const char* fam, const std::vector<Ev>& h)
{
    R->check(
        [&] {
            std::string n = fam;
            for (auto& e : h)
                n += " " + e.str();
            return n;
        },
        [&] {
            Model m;
            disk->set(m.files());
            std::string got;
            {
                Server s(*disk);
                s.callers = one_program(h);
                for (auto& e : h)
                {
                    drive(s, m, e);
                    ++R->transitions;
                }
                got = snapshot(s, m);
                R->state(m.str());
                auto& want = fresh(m, s.callers);
                ++R->validated;
                if (h.size() > 1)
                    R->interesting();
                require(got == want, "the results are not those of a fresh server: " + first_diff(got, want));
                // closing everything leaves nothing behind but what the configuration itself reports
                disk->set(m.files());
                while (!m.open.empty())
                    drive(s, m, { 'x', m.open.begin()->first });
                auto end = snapshot(s, m);
                auto& e0 = fresh(m, s.callers);
                require(end == e0, "after closing everything: " + first_diff(end, e0));
            }
        });
}
static void words(const char* fam, std::vector<Ev>& h, Model m, const std::vector<Ev>& alpha, int depth)
{
    if (!h.empty())
        one(fam, h);
    if (!depth)
        return;
    for (auto& e : alpha)
    {
        if (!m.enabled(e))
            continue;
        Model m2 = m;
        m2.apply(e);
        h.push_back(e);
        words(fam, h, m2, alpha, depth - 1);
        h.pop_back();
    }
}
static void family(const char* fam, std::vector<Ev> start, const std::vector<Ev>& alpha, int depth)
{
    Model m;
    for (auto& e : start)
        m.apply(e);
    words(fam, start, m, alpha, depth);
}
int main(int argc, char** argv)
{
    Run r(argc, argv, 4);
    R = &r;
    Disk d;
    disk = &d;
    const int more = r.thorough() ? 2 : 1;
    const std::string P = "P", Q = "Q", M = "lib/MAC", C = "lib/CPY", N = "lib/NAC", M2 = "lib2/MAC";
    { // one program, its macro and copybook in the editor
        std::vector<Ev> a { { 'o', P }, { 'x', P }, { 'o', M }, { 'x', M }, { 'o', C }, { 'x', C } };
        a += changes('c', P);
        a += changes('c', M);
        a += changes('c', C);
        family("editor", {}, a, 4 + more);
        family("editor", { { 'o', P }, { 'o', M } }, a, 3 + more);
    }
    { // two programs
        std::vector<Ev> a { { 'o', P }, { 'x', P }, { 'o', Q }, { 'x', Q }, { 'o', M }, { 'x', M }, { 'c', M, 1 }, { 'c', M, 2 } };
        a += changes('c', Q);
        a += { { 'c', P, 1 }, { 'c', P, 3 } };
        family("two", {}, a, 4 + more);
        family("two", { { 'o', P }, { 'o', Q } }, a, 3 + more);
    }
    { // members change on the disk
        std::vector<Ev> a { { 'x', P }, { 'o', Q }, { 'o', M }, { 'x', M }, { 's', M }, { 'd', M }, { 'd', N }, { 's', P }, { 'd', C } };
        a += { { 'c', P, 1 }, { 'c', P, 2 }, { 'c', M, 1 }, { 'c', M, 3 }, { 'c', Q, 1 } };
        a += changes('w', M);
        a += changes('w', C);
        a += changes('w', N);
        family("disk", { { 'o', P } }, a, 3 + more);
    }
    { // the configuration changes
        std::vector<Ev> a { { 'o', P }, { 'x', P }, { 'o', Q }, { 'x', Q }, { 'o', M }, { 'c', P, 2 }, { 'c', Q, 1 }, { 'c', M, 1 }, { 'w', M2, 1 }, { 'd', M2 } };
        a += changes('w', F_GRPS);
        a += changes('w', F_PGMS);
        a += { { 'd', F_GRPS }, { 'd', F_PGMS }, { 'o', F_GRPS }, { 'x', F_GRPS }, { 'c', F_GRPS, 1 }, { 's', F_GRPS } };
        family("config", { { 'o', P } }, a, 3 + more);
    }
    return r.finish();
}
