// Shrinks a violating scenario while the violation class stays the same.
#include "minimise.h"
#include <chrono>
#include <set>

using namespace sim;
using std::string;
using std::vector;

namespace mini {

string cls(const string &v) { return v.substr(0, v.find(':')); }

namespace {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct M {
    Scenario best;
    string klass;
    const Exec &exec;
    double deadline;
    int tries = 0;
    Outcome last;
    bool over() { return now() > deadline || tries > 6000; }
    bool attempt(const Scenario &c) {
        if (over()) return false;
        tries++;
        Outcome o = exec(c);
        if (!o.ran || o.verdict.empty() || cls(o.verdict) != klass) return false;
        best = c;
        last = o;
        return true;
    }
};

int first_inst(const Scenario &s, size_t ph) {
    int n = 0;
    for (size_t i = 0; i < ph; i++) n += (int)s.ph[i].insts.size();
    return n;
}
Scenario drop_inst(const Scenario &s, int id) {
    Scenario c = s;
    int n = 0;
    for (size_t p = 0; p < c.ph.size(); p++)
        for (size_t i = 0; i < c.ph[p].insts.size(); i++, n++)
            if (n == id) {
                c.ph[p].insts.erase(c.ph[p].insts.begin() + i);
                vector<Fault> f;
                for (auto x : c.faults) {
                    if (x.inst == id) continue;
                    if (x.inst > id) x.inst--;
                    f.push_back(x);
                }
                c.faults = f;
                vector<Edit> ed;
                for (auto x : c.edits) {
                    if (x.inst == id) continue;
                    if (x.inst > id) x.inst--;
                    ed.push_back(x);
                }
                c.edits = ed;
                for (auto &ph : c.ph) {
                    vector<std::pair<int, int>> sch;
                    for (auto e : ph.sched) {
                        if (e.first == id) continue;
                        if (e.first > id) e.first--;
                        sch.push_back(e);
                    }
                    ph.sched = sch;
                }
                return c;
            }
    return c;
}
Scenario drop_phase(const Scenario &s, size_t p) {
    Scenario c = s;
    int f = first_inst(s, p);
    for (int k = (int)s.ph[p].insts.size() - 1; k >= 0; k--) c = drop_inst(c, f + k);
    // the edits stay, before the next phase
    if (p + 1 < c.ph.size()) c.ph[p + 1].puts.insert(c.ph[p + 1].puts.begin(), c.ph[p].puts.begin(), c.ph[p].puts.end());
    c.ph.erase(c.ph.begin() + p);
    return c;
}

// replace a text in every file that has it
Scenario with_data(const Scenario &s, const string &from, const string &to) {
    Scenario c = s;
    for (auto &p : c.ph)
        for (auto &f : p.puts)
            if (f.data == from) f.data = to;
    for (auto &e : c.edits)
        if (e.f.data == from && e.mode != E_MOVE) e.f.data = to;
    return c;
}

// ddmin over pieces of every distinct file content
void shrink_data(M &m, bool lines) {
    std::set<string> seen;
    bool again = true;
    while (again && !m.over()) {
        again = false;
        vector<string> all;
        for (auto &p : m.best.ph)
            for (auto &f : p.puts)
                if (f.kind != K_LINK && f.kind != K_HARD && !f.data.empty() && !seen.count(f.data)) all.push_back(f.data);
        for (auto &e : m.best.edits)
            if (e.mode != E_MOVE && !e.f.data.empty() && !seen.count(e.f.data)) all.push_back(e.f.data);
        if (all.empty()) return;
        string cur = all[0];
        seen.insert(cur);
        if (!lines && cur.size() > 600) { again = true; continue; }
        vector<string> pc;
        if (lines) {
            size_t i = 0;
            while (i < cur.size()) {
                size_t e = cur.find('\n', i);
                e = e == string::npos ? cur.size() : e + 1;
                pc.push_back(cur.substr(i, e - i));
                i = e;
            }
        } else
            for (char ch : cur) pc.push_back(string(1, ch));
        size_t chunk = pc.size();
        while (chunk >= 1 && !m.over()) {
            bool any = false;
            for (size_t at = 0; at < pc.size() && !m.over();) {
                size_t len = chunk < pc.size() - at ? chunk : pc.size() - at;
                string t;
                for (size_t k = 0; k < pc.size(); k++)
                    if (k < at || k >= at + len) t += pc[k];
                if (m.attempt(with_data(m.best, cur, t))) {
                    pc.erase(pc.begin() + at, pc.begin() + at + len);
                    cur = t;
                    seen.insert(cur);
                    any = true;
                } else at += len;
            }
            if (chunk == 1 && !any) break;
            if (chunk > 1) chunk = (chunk + 1) / 2;
            else if (!any) break;
        }
        seen.insert(cur);
        again = true;
    }
}

void structure(M &m) {
    for (size_t i = m.best.faults.size(); i-- > 0;) {
        Scenario c = m.best;
        if (i >= c.faults.size()) continue;
        c.faults.erase(c.faults.begin() + i);
        m.attempt(c);
    }
    for (size_t i = m.best.edits.size(); i-- > 0;) {
        Scenario c = m.best;
        c.edits.erase(c.edits.begin() + i);
        m.attempt(c);
    }
    for (size_t p = m.best.ph.size(); p-- > 0;) {
        if (m.best.ph.size() < 2 || p >= m.best.ph.size()) continue;
        m.attempt(drop_phase(m.best, p));
    }
    int n = first_inst(m.best, m.best.ph.size());
    for (int i = n - 1; i >= 0; i--) {
        if (first_inst(m.best, m.best.ph.size()) < 2) break;
        m.attempt(drop_inst(m.best, i));
    }
    for (size_t p = 0; p < m.best.ph.size(); p++)
        for (size_t i = m.best.ph[p].puts.size(); i-- > 0;) {
            Scenario c = m.best;
            c.ph[p].puts.erase(c.ph[p].puts.begin() + i);
            m.attempt(c);
        }
    for (size_t p = 0; p < m.best.ph.size(); p++)
        if (m.best.ph[p].disk > -2) {
            Scenario c = m.best;
            c.ph[p].disk = -2;
            m.attempt(c);
        }
    if (m.best.disk_free >= 0) {
        Scenario c = m.best;
        c.disk_free = -1;
        m.attempt(c);
    }
}
void knobs(M &m) {
    const Knobs def;
    for (size_t p = 0; p < m.best.ph.size(); p++) {
        for (size_t i = 0; i < m.best.ph[p].insts.size(); i++)
            for (int k = 0; k < 15; k++) {
                Scenario c = m.best;
                Knobs &q = c.ph[p].insts[i].k;
                Knobs old = q;
                switch (k) {
                case 0: q = def; break;
                case 1: q.rchunk = 0; break;
                case 2: q.wchunk = 0; break;
                case 3: q.bufsize = 4096; break;
                case 4: q.stdoutmode = 0; break;
                case 5: q.heapfill = 0; break;
                case 6: q.stackfill = 0; break;
                case 7: q.seed = 1; break;
                case 8: q.memmax = 0; break;
                case 9: q.memlimit = 0; break;
                case 10: q.stdclosed = 0; break;
                case 11: q.maxfd = 0; break;
                case 12: q.stdstall = 0; break;
                case 13: q.sigign = 0; break;
                case 14: q.mask = 022; break;
                }
                if (k == 0 && old.rchunk == 0 && old.wchunk == 0 && old.bufsize == 4096 && old.stdoutmode == 0 && old.heapfill == 0 && old.stackfill == 0 && old.seed == 1 && old.memmax == 0 && old.memlimit == 0 && old.stdclosed == 0 && old.maxfd == 0 && old.stdstall == 0 && old.sigign == 0 && old.mask == 022) break;
                if (m.attempt(c) && k == 0) break;
            }
        for (size_t i = 0; i < m.best.ph[p].puts.size(); i++) {
            FileSpec f = m.best.ph[p].puts[i];
            if (f.stall) {
                Scenario c = m.best;
                c.ph[p].puts[i].stall = false;
                m.attempt(c);
            }
            if (!f.chunks.empty()) {
                Scenario c = m.best;
                c.ph[p].puts[i].chunks.clear();
                if (!m.attempt(c)) {
                    vector<int> ch = f.chunks;
                    while (ch.size() > 1 && !m.over()) {
                        vector<int> half(ch.begin(), ch.begin() + ch.size() / 2);
                        c = m.best;
                        c.ph[p].puts[i].chunks = half;
                        if (!m.attempt(c)) break;
                        ch = half;
                    }
                }
            }
            if (f.kind == K_PIPE_IN) {
                Scenario c = m.best;
                c.ph[p].puts[i].kind = K_REG;
                c.ph[p].puts[i].chunks.clear();
                c.ph[p].puts[i].stall = false;
                m.attempt(c);
            }
        }
        for (size_t i = 0; i < m.best.ph[p].insts.size(); i++) {
            // plain command line
            auto &a = m.best.ph[p].insts[i].argv;
            if (a.size() == 2 && a[0] == "@tables") {
                // script operations end with ';'
                vector<string> ops;
                string cur;
                for (char ch : a[1]) {
                    cur += ch;
                    if (ch == ';') ops.push_back(cur), cur.clear();
                }
                for (size_t chunk = ops.size(); chunk >= 1 && !m.over(); chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
                    for (size_t at = 0; at < ops.size() && !m.over();) {
                        string t;
                        for (size_t k = 0; k < ops.size(); k++)
                            if (k < at || k >= at + chunk) t += ops[k];
                        Scenario c = m.best;
                        c.ph[p].insts[i].argv[1] = t;
                        if (m.attempt(c)) ops.erase(ops.begin() + at, ops.begin() + std::min(at + chunk, ops.size()));
                        else at += chunk;
                    }
            }
        }
    }
}
void faults(M &m) {
    for (size_t i = 0; i < m.best.faults.size(); i++) {
        if (m.best.faults[i].persist) {
            Scenario c = m.best;
            c.faults[i].persist = false;
            m.attempt(c);
        }
        for (uint32_t step = m.best.faults[i].nth; step >= 1 && !m.over(); step /= 2)
            while (m.best.faults[i].nth >= step && !m.over()) {
                Scenario c = m.best;
                c.faults[i].nth -= step;
                if (!m.attempt(c)) break;
            }
        if (m.best.faults[i].act == A_TORN || m.best.faults[i].act == A_SHORT)
            while (m.best.faults[i].arg > 1 && !m.over()) {
                Scenario c = m.best;
                c.faults[i].arg /= 2;
                if (!m.attempt(c)) break;
            }
    }
}
void edits(M &m) {
    for (size_t i = 0; i < m.best.edits.size(); i++)
        for (uint32_t step = m.best.edits[i].nth; step >= 1 && !m.over(); step /= 2)
            while (m.best.edits[i].nth >= step && !m.over()) {
                Scenario c = m.best;
                c.edits[i].nth -= step;
                if (!m.attempt(c)) break;
            }
}
void schedule(M &m) {
    if (m.last.sched_phase < 0 || m.last.sched.empty() || m.last.sched.size() >= 4096) return;
    Scenario c = m.best;
    if ((size_t)m.last.sched_phase >= c.ph.size()) return;
    Phase &ph = c.ph[m.last.sched_phase];
    size_t pi = (size_t)m.last.sched_phase;
    ph.sched = m.last.sched;
    ph.schedseed = 0;
    ph.schedstick = 0;
    if (!m.attempt(c)) return;
    for (size_t chunk = m.best.ph[pi].sched.size(); chunk >= 1 && !m.over(); chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
        for (size_t at = 0; at < m.best.ph[pi].sched.size() && !m.over();) {
            Scenario d = m.best;
            auto &s = d.ph[pi].sched;
            s.erase(s.begin() + at, s.begin() + std::min(at + chunk, s.size()));
            if (!m.attempt(d)) at += chunk;
        }
}
}  // namespace

Scenario minimise(const Scenario &sc, const Outcome &o, const Exec &exec, double deadline) {
    M m{sc, cls(o.verdict), exec, deadline};
    m.last = o;
    for (int round = 0; round < 3 && !m.over(); round++) {
        string before = serialize(m.best);
        structure(m);
        shrink_data(m, true);
        knobs(m);
        schedule(m);
        faults(m);
        edits(m);
        shrink_data(m, false);
        if (serialize(m.best) == before) break;
    }
    return m.best;
}
}  // namespace mini
