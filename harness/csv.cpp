// I01: rows written through the CSV writer survive a crash whole and in order, whatever the stream below does.
#include "sim.hpp"

#include <fiction/io/csv_writer.hpp>

#include <cerrno>
#include <cstdio>
#include <fstream>
#include <iomanip>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace
{
struct crash  // the simulated process ends here
{};

// a device that accepts bytes in pieces, fails from a byte on, fails to flush, throws, and keeps what reached it durably
class device : public std::streambuf
{
  public:
    std::string durable{};
    int64_t     fail_at{-1};        // byte number from which on nothing is accepted
    int64_t     sync_fail{-1};      // the n-th flush fails
    int64_t     throw_at{-1};       // byte number at which the device throws
    int64_t     crash_at{-1};       // the n-th device operation ends the process
    int64_t     syncs{0}, ops{0};
    bool        buffered{false};
    explicit device(size_t buf) : store(buf), buffered{buf > 0}
    {
        if (buffered)
        {
            setp(store.data(), store.data() + store.size());
        }
    }

  protected:
    bool push(char c)
    {
        const auto at = static_cast<int64_t>(durable.size());
        if (crash_at >= 0 && ops++ == crash_at)
        {
            sim::fault("crash-in-device", 1000);
            throw crash{};
        }
        if (throw_at >= 0 && at == throw_at)
        {
            throw_at = -1;
            sim::fault("device-throws", 1000);
            throw std::runtime_error("device");
        }
        if (fail_at >= 0 && at >= fail_at)
        {
            sim::fault("device-full", 1000);
            return false;
        }
        durable.push_back(c);
        return true;
    }
    bool drain()
    {
        for (char* p = pbase(); p != pptr(); ++p)
        {
            if (!push(*p))
            {
                // keep what was not accepted
                const std::string rest(p, pptr());
                std::copy(rest.begin(), rest.end(), store.data());
                setp(store.data(), store.data() + store.size());
                pbump(static_cast<int>(rest.size()));
                return false;
            }
        }
        setp(store.data(), store.data() + store.size());
        return true;
    }
    int overflow(int c) override
    {
        if (!buffered)
        {
            return c == EOF || push(static_cast<char>(c)) ? (c == EOF ? 0 : c) : EOF;
        }
        if (!drain())
        {
            return EOF;
        }
        if (c != EOF)
        {
            *pptr() = static_cast<char>(c);
            pbump(1);
        }
        return c == EOF ? 0 : c;
    }
    int sync() override
    {
        if (sync_fail >= 0 && syncs++ == sync_fail)
        {
            sim::fault("flush-fails", 1000);
            return -1;
        }
        return !buffered || drain() ? 0 : -1;
    }

  private:
    std::vector<char> store;
};

struct point  // a user type, with an expensive copy that must not be needed
{
    int x, y;
    point(int a, int b) : x{a}, y{b} {}
    point(const point&)            = delete;
    point& operator=(const point&) = delete;
    friend std::ostream& operator<<(std::ostream& os, const point& p)
    {
        return os << '(' << p.x << ';' << p.y << ')';
    }
};

struct grumpy  // refuses to be printed
{
    friend std::ostream& operator<<(std::ostream& os, const grumpy&)
    {
        os.setstate(std::ios::failbit);
        return os;
    }
};

std::string random_text(const char* name)
{
    static const char* words[] = {"", "a", "Name", "New York", "x,y", "\"q\"", "0", "line\nbreak", "operational", "\t", "\xc3\xa4", "-", ",", "very long field that does not fit small buffers, certainly"};
    return words[sim::choose(name, 0, 13)];
}

// one row: a shape with a writer call and the reference rendering of the same values into another stream
struct row
{
    int         shape;
    std::string s, t;
    int64_t     i;
    uint64_t    u;
    double      d;
    bool        b;
    char        c;
};

row random_row()
{
    row r{};
    r.shape = static_cast<int>(sim::choose("shape", 0, 13));
    r.s     = random_text("s");
    r.t     = random_text("t");
    r.i     = sim::pick<int64_t>("i", {0, 1, -1, 42, INT64_MAX, INT64_MIN, 1000000});
    r.u     = sim::pick<uint64_t>("u", {0, 7, UINT64_MAX, 65536});
    r.d     = sim::pick("d", {0.0, -0.32, 1e-9, 5.6, 123456789.125, -1e300, 1.0 / 3});
    r.b     = sim::chance("b", 50);
    r.c     = sim::pick("c", {'a', ',', '-', '0'});
    return r;
}

void put(fiction::csv_writer& w, const row& r)
{
    std::string       lv{r.s};
    const std::string cl{r.t};
    switch (r.shape)
    {
        case 0: w.write_line(); break;
        case 1: w.write_line(r.s); break;
        case 2: w.write_line(r.s, r.i); break;
        case 3: w.write_line(r.d, r.d, r.i, r.b); break;
        case 4: w.write_line(lv, lv, lv); break;
        case 5: w.write_line(std::string{r.s}, r.c, std::string_view{cl}, r.u); break;
        case 6: w.write_line("Name", "Age", "City", r.s.c_str(), r.t.c_str()); break;
        case 7: w.write_line(point{static_cast<int>(r.b), 3}, r.d); break;
        case 8: w.write_line(r.c); break;
        case 9: w.write_line(static_cast<uint16_t>(r.u), static_cast<int8_t>('x'), 'y', r.b, r.d, r.u, r.i, lv, cl, 1.5f); break;
        case 10: w.write_line(r.b); break;
        case 11: w.write_line(r.t, r.s, r.t, r.s, r.t, r.s, r.t); break;
        case 12: w.write_line("", "", ""); break;
        default: w.write_line(r.d); break;
    }
    const sim::quiet q;
    SIM_CHECK(lv == r.s && cl == r.t, "argument-consumed", "a value handed over by reference was changed by the writer (shape %d)", r.shape);
}

void want(std::ostream& o, const row& r)
{
    switch (r.shape)
    {
        case 0: break;
        case 1: o << r.s; break;
        case 2: o << r.s << ',' << r.i; break;
        case 3: o << r.d << ',' << r.d << ',' << r.i << ',' << r.b; break;
        case 4: o << r.s << ',' << r.s << ',' << r.s; break;
        case 5: o << r.s << ',' << r.c << ',' << r.t << ',' << r.u; break;
        case 6: o << "Name" << ',' << "Age" << ',' << "City" << ',' << r.s << ',' << r.t; break;
        case 7: o << '(' << static_cast<int>(r.b) << ";3)" << ',' << r.d; break;
        case 8: o << r.c; break;
        case 9: o << static_cast<uint16_t>(r.u) << ",x,y," << r.b << ',' << r.d << ',' << r.u << ',' << r.i << ',' << r.s << ',' << r.t << ',' << 1.5f; break;
        case 10: o << r.b; break;
        case 11: o << r.t << ',' << r.s << ',' << r.t << ',' << r.s << ',' << r.t << ',' << r.s << ',' << r.t; break;
        case 12: o << ',' << ','; break;
        default: o << r.d; break;
    }
    o << '\n';
}

void dress(std::ostream& o, int how)
{
    if (how & 1)
    {
        o << std::setprecision(3) << std::fixed;
    }
    if (how & 2)
    {
        o << std::boolalpha;
    }
    if (how & 4)
    {
        o << std::showpos << std::hex;
    }
    if (how & 8)
    {
        o << std::scientific << std::setprecision(12);
    }
}

std::string esc(const std::string& s)
{
    std::string r;
    for (const char c : s)
    {
        r += c == '\n' ? std::string{"\\n"} : std::string(1, c);
    }
    return r.size() > 160 ? r.substr(0, 160) + "..." : r;
}

bool prefix(const std::string& a, const std::string& b)
{
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
}

// writes rows through `os`, judges after every row; `seen` returns what survived the process so far
template <typename Seen>
void workload(std::ostream& os, const std::vector<row>& rows, int style, bool faulty, Seen seen)
{
    std::string expect{};
    bool        all_good = true;
    fiction::csv_writer w{os};
    for (size_t k = 0; k < rows.size(); ++k)
    {
        std::string before = expect;
        {
            const sim::quiet   q;
            std::ostringstream o;
            dress(o, style);
            want(o, rows[k]);
            expect += o.str();
        }
        bool threw = false;
        try
        {
            put(w, rows[k]);
        }
        catch (const std::ios_base::failure&)
        {
            threw = true;
            SIM_CHECK(os.exceptions() != std::ios::goodbit, "unasked-exception", "a stream failure was thrown although the stream does not ask for exceptions");
            SIM_CHECK(!os.good(), "unasked-exception", "a stream failure was thrown although the stream is good");
        }
        catch (const std::runtime_error&)
        {
            threw = true;
            SIM_CHECK(os.exceptions() & std::ios::badbit, "unasked-exception", "the device's exception came through although the stream does not ask for it");
        }
        catch (const crash&)
        {
            threw = true;
        }
        const sim::quiet  q;
        const std::string got = seen();
        sim::note(got);
        SIM_CHECK(prefix(got, expect), "not-a-prefix", "after row %zu the device holds '%s', which is no prefix of the %zu rows '%s'", k + 1, esc(got).c_str(), k + 1,
                  esc(expect).c_str());
        if (all_good)
        {
            SIM_CHECK(got.size() >= before.size(), "lost-row", "row %zu vanished from the device: '%s'", k, esc(got).c_str());
        }
        if (os.good() && !threw)
        {
            SIM_CHECK(got == expect, "row-not-durable", "row %zu was written, the stream is good, but a crash now leaves only '%s' of '%s'", k + 1, esc(got).c_str(),
                      esc(expect).c_str());
            sim::probe("durable-row");
        }
        else
        {
            all_good = false;
            SIM_CHECK(faulty, "spurious-failure", "row %zu failed although nothing went wrong", k + 1);
            SIM_CHECK(os.fail(), "silent-failure", "row %zu threw but the stream reports no failure", k + 1);
            sim::probe("failed-row");
            if (got != expect)
            {
                // nothing of later rows may appear any more: the history ends inside this row
                const auto at = got;
                for (size_t m = k + 1; m < rows.size() && m < k + 3; ++m)
                {
                    try
                    {
                        put(w, rows[m]);
                    }
                    catch (...)
                    {
                    }
                    SIM_CHECK(prefix(seen(), expect), "resumed", "after a failed row the writer went on writing: '%s'", esc(seen()).c_str());
                }
            }
            return;
        }
    }
}
}  // namespace

SIM_SCENARIO(device_faults, 3)
{
    const auto       buf = static_cast<size_t>(sim::pick<int64_t>("buffer", {0, 1, 2, 7, 16, 64, 4096}));
    std::vector<row> rows;
    const auto       n = sim::choose("rows", 1, 8);
    for (int64_t i = 0; i < n; ++i)
    {
        rows.push_back(random_row());
    }
    const auto style = static_cast<int>(sim::choose("style", 0, 15));
    device     dev{buf};
    const auto kind = sim::choose("fault-kind", 0, 5);
    bool       faulty = kind != 0;
    const auto at     = sim::choose("fault-at", 0, 200);
    switch (kind)
    {
        case 1: dev.fail_at = at; break;
        case 2: dev.sync_fail = at % 9; break;
        case 3: dev.throw_at = at; break;
        case 4: dev.crash_at = at; break;
        case 5:
            dev.fail_at   = at;
            dev.sync_fail = at % 5;
            break;
        default: break;
    }
    std::ostream os{&dev};
    dress(os, style);
    // a crash is simulated by an exception that must get through; otherwise the user may or may not ask for exceptions
    const auto mask = kind == 4 ? 1 : sim::choose("exceptions", 0, 2);
    os.exceptions(mask == 0 ? std::ios::goodbit : mask == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    sim::describe("rows=%lld buffer=%zu style=%d fault=%lld at %lld exceptions=%lld", (long long)n, buf, style, (long long)kind, (long long)at, (long long)mask);
    sim::nontrivial();
    workload(os, rows, style, faulty, [&] { return dev.durable; });
}

SIM_SCENARIO(disk_faults, 2)
{
    const std::string name = sim::scratch_dir() + "rows.csv";
    std::vector<row>  rows;
    const auto        n = sim::choose("rows", 1, 8);
    for (int64_t i = 0; i < n; ++i)
    {
        rows.push_back(random_row());
    }
    const auto kind = sim::choose("fault-kind", 0, 3);
    const auto at   = sim::choose("fault-at", 0, 200);
    if (kind & 1)
    {
        sim::disk_fail_write_at(at, sim::chance("enospc", 70) ? ENOSPC : EIO);
    }
    if (kind & 2)
    {
        sim::disk_chunk(sim::choose("chunk", 1, 9));
    }
    sim::describe("file rows=%lld fault=%lld at %lld", (long long)n, (long long)kind, (long long)at);
    sim::nontrivial();
    std::ofstream os{name};
    if (!os)
    {
        sim::discard("open");
    }
    workload(os, rows, 0, kind & 1,
             [&]
             {
                 const int64_t len = sim::disk_written();
                 std::ifstream in{name, std::ios::binary};
                 std::string   s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                 (void)len;
                 return s;
             });
}

// writers on streams of their own are independent of each other; one writer under a lock keeps whole rows
SIM_SCENARIO(threads, 1)
{
    const auto                           k = sim::choose("writers", 2, 4);
    const bool                           shared = sim::chance("shared", 40);
    std::vector<std::vector<row>>        rows(static_cast<size_t>(k));
    std::vector<std::ostringstream>      os(static_cast<size_t>(k));
    std::vector<std::vector<std::string>> expect(static_cast<size_t>(k));
    for (size_t t = 0; t < rows.size(); ++t)
    {
        const auto n = sim::choose("rows", 1, 4);
        for (int64_t i = 0; i < n; ++i)
        {
            rows[t].push_back(random_row());
            std::ostringstream o;
            want(o, rows[t].back());
            expect[t].push_back(o.str());
        }
    }
    sim::describe("threads=%lld shared=%d", (long long)k, shared);
    sim::nontrivial();
    std::mutex               m;
    std::vector<std::pair<size_t, size_t>> order;
    fiction::csv_writer      common{os[0]};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < rows.size(); ++t)
    {
        ts.emplace_back(
            [&, t]
            {
                if (shared)
                {
                    for (size_t i = 0; i < rows[t].size(); ++i)
                    {
                        const std::lock_guard<std::mutex> g{m};
                        put(common, rows[t][i]);
                        order.emplace_back(t, i);
                    }
                }
                else
                {
                    fiction::csv_writer w{os[t]};
                    for (const auto& r : rows[t])
                    {
                        put(w, r);
                    }
                }
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    if (shared)
    {
        std::string e;
        for (const auto& [t, i] : order)
        {
            e += expect[t][i];
        }
        SIM_CHECK(os[0].str() == e, "interleaved", "rows written under a lock are '%s', expected '%s'", esc(os[0].str()).c_str(), esc(e).c_str());
        return;
    }
    for (size_t t = 0; t < rows.size(); ++t)
    {
        std::string e;
        for (const auto& x : expect[t])
        {
            e += x;
        }
        SIM_CHECK(os[t].str() == e, "crosstalk", "writer %zu produced '%s', expected '%s'", t, esc(os[t].str()).c_str(), esc(e).c_str());
    }
}
