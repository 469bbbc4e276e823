// I03: what a reader returns is what the file says, or it reports an error; cut, damaged and unreadable files end in an error
// or a layout, never in a crash or an endless loop.
#include "io.hpp"

#include <fiction/io/read_fgl_layout.hpp>
#include <fiction/io/read_fqca_layout.hpp>
#include <fiction/io/read_sidb_surface_defects.hpp>
#include <fiction/io/read_sqd_layout.hpp>
#include <fiction/io/tt_reader.hpp>
#include <fiction/io/write_fgl_layout.hpp>
#include <fiction/io/write_fqca_layout.hpp>
#include <fiction/io/write_sqd_layout.hpp>

#include <memory>
#include <thread>

namespace
{
using namespace iot;

struct text
{
    const char*                                      what{""};
    std::string                                      file{};     // what is on the disk
    std::string                                      meaning{};  // what it says
    std::function<std::string(const std::string&)>   by_name{};  // read a file, tell what it said
    std::function<std::string(std::istream&)>        by_stream{};
    std::function<std::string(const std::string&)>   in_place{};  // read into an existing layout
    size_t                                           needed{0};   // a file cut before this byte must be refused (0: the format has no end)
    bool                                             silent_open{false};  // a file that cannot be opened reads as an empty one (documented nowhere, but harmless)
};
template <typename Lyt, typename Read, typename Into, typename Tell>
text of(const char* what, std::string file, std::string meaning, Read read, Into into, Tell tell)
{
    text t;
    t.what      = what;
    t.file      = std::move(file);
    t.meaning   = std::move(meaning);
    t.by_name   = [=](const std::string& n) { return tell(read(std::string_view{n})); };
    t.by_stream = [=](std::istream& is) { return tell(read(is)); };
    t.in_place  = [=](const std::string& n)
    {
        Lyt l{};
        into(l, n);
        return tell(l);
    };
    return t;
}
template <typename Lyt>
text an_sqd(const char* what)
{
    const auto         l = sidbs<Lyt>();
    std::ostringstream o;
    write_sqd_layout(l, o);
    auto t   = of<Lyt>(what, o.str(), sidb_text(l), [](auto&& from) { return read_sqd_layout<Lyt>(from, "n"); }, [](Lyt& x, const std::string& n) { read_sqd_layout<Lyt>(x, std::string_view{n}); },
                     [](const Lyt& x) { return sidb_text(x); });
    t.needed = t.file.rfind("</siqad>") + 8;
    return t;
}
template <typename Lyt>
text an_fgl(const char* what, Lyt l)
{
    std::ostringstream o;
    write_fgl_layout(l, o);
    auto t   = of<Lyt>(what, o.str(), gates_text(l), [](auto&& from) { return read_fgl_layout<Lyt>(from, ""); }, [](Lyt& x, const std::string& n) { read_fgl_layout<Lyt>(x, std::string_view{n}); },
                     [](const Lyt& x) { return gates_text(x); });
    t.needed = t.file.rfind("</fgl>") + 6;
    return t;
}
text a_surface()
{
    static constexpr std::array types{sidb_defect_type::NONE,         sidb_defect_type::DB,       sidb_defect_type::SI_VACANCY, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::ONE_BY_ONE,
                                      sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI,  sidb_defect_type::ETCH_PIT,       sidb_defect_type::MISSING_DIMER};
    using lyt    = sidb_100_cell_clk_lyt;
    const auto w = sim::choose("w", 1, 24), h = sim::choose("h", 1, 8);
    std::string file = "[", meaning;
    std::map<std::pair<int64_t, int64_t>, int64_t> says;
    for (int64_t y = 0; y < h; ++y)
    {
        file += y ? "\n [" : "[";
        for (int64_t x = 0; x < w; ++x)
        {
            const auto d = sim::chance("defect", 25) ? sim::choose("type", 0, 10) : 0;
            file += (x ? (sim::chance("wide", 20) ? "  " : " ") : (sim::chance("pad", 10) ? " " : "")) + std::to_string(d);
            if (d)
            {
                says[{x, y}] = d;
            }
        }
        file += "]";
    }
    file += "]\n";
    for (const auto& [c, d] : says)
    {
        meaning += std::to_string(c.first) + "," + std::to_string(c.second) + "=" + std::to_string((int)types[static_cast<size_t>(d)]) + "\n";
    }
    meaning += std::to_string(w) + "x" + std::to_string(h);
    const auto tell = [](const sidb_defect_surface<lyt>& s)
    {
        const sim::quiet                            q;
        std::map<std::pair<int64_t, int64_t>, int>  m;
        s.foreach_sidb_defect(
            [&](const auto& cd)
            {
                if (cd.second.type != sidb_defect_type::NONE)
                {
                    m[{static_cast<int64_t>(cd.first.x), static_cast<int64_t>(cd.first.y)}] = (int)cd.second.type;
                }
            });
        std::string r;
        for (const auto& [c, d] : m)
        {
            r += std::to_string(c.first) + "," + std::to_string(c.second) + "=" + std::to_string(d) + "\n";
        }
        return r + std::to_string((long long)s.x() + 1) + "x" + std::to_string((long long)s.y() + 1);
    };
    text t;
    t.what      = "defect surface";
    t.file      = file;
    t.meaning   = meaning;
    t.by_name   = [tell](const std::string& n) { return tell(read_sidb_surface_defects<lyt>(std::string_view{n}, "n")); };
    t.by_stream = [tell](std::istream& is) { return tell(read_sidb_surface_defects<lyt>(is, "n")); };
    return t;
}
text some_tables()
{
    const auto  n = sim::choose("tables", 0, 12);
    text        t;
    const auto  some = sim::choose("vars", 2, 6);
    const bool  same = sim::chance("same", 50);
    std::string digits = "0123456789abcdef";
    for (int64_t i = 0; i < n; ++i)
    {
        std::string hex;
        const auto  vars = same ? some : sim::choose("vars", 2, 7);
        for (int64_t k = 0; k < (vars <= 2 ? 1 : 1ll << (vars - 2)); ++k)
        {
            hex += digits[static_cast<size_t>(sim::choose("hex", 0, 15))];
        }
        t.file += "0x" + hex + " " + std::string{sim::pick("expr", {"(ab)", "!a", "[a(bc)]", "<abc>"})} + "\n";
        t.meaning += hex + "\n";
    }
    const auto all = [](tt_reader<>& r)
    {
        std::string m;
        for (;;)
        {
            const auto x = r.next();
            if (!x)
            {
                SIM_CHECK(!r.next().has_value(), "resumed", "the truth table reader goes on after its end");
                return m;
            }
            m += kitty::to_hex(*x) + "\n";
        }
    };
    t.what    = "truth tables";
    t.by_name = [all](const std::string& name)
    {
        tt_reader<> r{name};
        return all(r);
    };
    t.by_stream = [all](std::istream& is)
    {
        tt_reader<> r{is};
        return all(r);
    };
    t.silent_open = true;
    return t;
}
text draw_text()
{
    const sim::quiet q;
    text             t;
    switch (sim::choose("kind", 0, 11))
    {
        case 0: t = an_sqd<siqad_lyt>("SQD layout"); break;
        case 1: t = an_sqd<cart_lyt>("SQD layout (Cartesian)"); break;
        case 2: t = an_sqd<defect_lyt>("SQD layout with defects"); break;
        case 3: t = sim::chance("111", 50) ? an_sqd<siqad111>("SQD layout, Si(111)") : an_sqd<defect_cart>("SQD layout with defects (Cartesian)"); break;
        case 4:
        case 5:
        {
            const auto         l = a_qca<tall_qca>(true, 2);
            std::ostringstream o;
            write_fqca_layout(l, o);
            const auto tell = [](const tall_qca& x) { return qca_text(x); };
            t.what          = "FQCA layout";
            t.file          = o.str();
            t.meaning       = qca_text(l);
            t.by_name       = [tell](const std::string& n) { return tell(read_fqca_layout<tall_qca>(std::string_view{n}, "n")); };
            t.by_stream     = [tell](std::istream& is) { return tell(read_fqca_layout<tall_qca>(is, "n")); };
            break;
        }
        case 6: t = a_surface(); break;
        case 7: t = some_tables(); break;
        case 8: t = an_fgl("FGL layout", routed_gates()); break;
        case 9: t = an_fgl("FGL layout", loose_gates<cart_gate_clk_lyt>()); break;
        case 10: t = sim::chance("row", 50) ? an_fgl("FGL layout (hexagonal)", loose_gates<hex_even_row_gate_clk_lyt>()) : an_fgl("FGL layout (hexagonal)", loose_gates<hex_odd_col_gate_clk_lyt>()); break;
        default: t = sim::chance("row", 50) ? an_fgl("FGL layout (shifted)", loose_gates<cart_odd_row_gate_clk_lyt>()) : an_fgl("FGL layout (shifted)", loose_gates<cart_even_col_gate_clk_lyt>()); break;
    }
    sim::describe("%s, %zu bytes", t.what, t.file.size());
    sim::note(t.meaning);
    return t;
}
struct outcome
{
    bool        threw = false;
    std::string said{}, error{};
};
outcome call(const std::function<std::string()>& f)
{
    outcome r;
    try
    {
        r.said = f();
    }
    catch (const std::exception& e)
    {
        r.threw = true;
        r.error = e.what();
    }
    return r;
}
std::string differ(const std::string& a, const std::string& b)
{
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k])
    {
        ++k;
    }
    const size_t from = a.rfind('\n', k) == std::string::npos ? 0 : a.rfind('\n', k ? k - 1 : 0) + 1;
    return "'" + shorten(a.substr(std::min(from, a.size()), 100)) + "' instead of '" + shorten(b.substr(std::min(from, b.size()), 100)) + "'";
}
outcome read_somehow(const text& t, const std::string& name)
{
    return t.in_place && sim::chance("in-place", 30) ? call([&] { return t.in_place(name); }) : call([&] { return t.by_name(name); });
}
}  // namespace

// what was written is what is read, over a disk that fails reads, splits them, interrupts them or refuses to open
SIM_SCENARIO(disk, 5)
{
    const auto        t    = draw_text();
    const std::string name = sim::scratch_dir() + "in.dat";
    spill(name, t.file);
    sim::nontrivial();
    sim::disk_reset();
    bool       fails = false, open = false;
    const auto k     = sim::choose("disk", 0, 9);
    if (k <= 4)
    {
        sim::disk_fail_read_at(sim::choose("at", 0, static_cast<int64_t>(t.file.size())), sim::pick("errno", {EIO, EIO, ESTALE}));
        fails = true;
    }
    else if (k == 5)
    {
        sim::disk_fail_open(sim::pick("errno", {EACCES, EMFILE, ENOENT}));
        fails = open = true;
    }
    if (k >= 6 || sim::chance("chunky", 40))
    {
        sim::disk_chunk(sim::pick<int64_t>("chunk", {1, 3, 17, 512, 4096}));
    }
    const auto r = read_somehow(t, name);
    sim::disk_reset();
    if (r.threw)
    {
        SIM_CHECK(fails, "spurious-failure", "reading the %s failed on a disk that works: %s", t.what, r.error.c_str());
        sim::probe(open ? "not-opened" : "reported");
    }
    else if (open)
    {
        SIM_CHECK(t.silent_open && r.said.empty(), "silent-loss", "a %s that could not be opened was read as '%s'", t.what, shorten(r.said).c_str());
    }
    else
    {
        SIM_CHECK(r.said == t.meaning, "silent-loss", "reading the %s returned %s", t.what, differ(r.said, t.meaning).c_str());
        sim::probe("complete");
    }
    const auto again = read_somehow(t, name);
    SIM_CHECK(!again.threw && again.said == t.meaning, "no-recovery", "the %s cannot be read after the disk recovered: %s", t.what, again.threw ? again.error.c_str() : differ(again.said, t.meaning).c_str());
}

// the writer's process died: the file ends somewhere
SIM_SCENARIO(cut, 3)
{
    const auto        t    = draw_text();
    const std::string name = sim::scratch_dir() + "in.dat";
    const auto        at   = sim::choose("at", 0, static_cast<int64_t>(t.file.size()));
    spill(name, t.file.substr(0, static_cast<size_t>(at)));
    sim::nontrivial();
    sim::disk_reset();
    sim::fault("crash-while-writing", 1000);
    const auto r = read_somehow(t, name);
    if (static_cast<size_t>(at) == t.file.size())
    {
        SIM_CHECK(!r.threw && r.said == t.meaning, "silent-loss", "reading the %s returned %s", t.what, r.threw ? r.error.c_str() : differ(r.said, t.meaning).c_str());
        return;
    }
    if (t.needed != 0)
    {
        SIM_CHECK(r.threw || static_cast<size_t>(at) >= t.needed, "cut-accepted", "the first %lld of %zu bytes of a %s were accepted", (long long)at, t.file.size(), t.what);
        SIM_CHECK(!r.threw || static_cast<size_t>(at) < t.needed, "spurious-failure", "the complete %s was refused: %s", t.what, r.error.c_str());
    }
    sim::probe(r.threw ? "cut-refused" : "cut-read");
}

// a sector went bad: some bytes are others
SIM_SCENARIO(damage, 4)
{
    const auto        t    = draw_text();
    const std::string name = sim::scratch_dir() + "in.dat";
    auto              bad  = t.file;
    if (bad.empty())
    {
        sim::discard("empty");
    }
    switch (sim::choose("damage", 0, 6))
    {
        case 0:  // some bytes
        case 1:
        {
            const auto n = sim::choose("bytes", 1, 3);
            for (int64_t i = 0; i < n; ++i)
            {
                bad[static_cast<size_t>(sim::choose("at", 0, static_cast<int64_t>(bad.size()) - 1))] = sim::pick("byte", {'\0', '0', '9', '<', '"', ' ', '\n', 'x', '[', ']', '-', '\xff', '=', '$', 'a', '1'});
                sim::fault("damaged-byte", 1000);
            }
            break;
        }
        case 2:  // some are missing
        {
            const auto at = sim::choose("at", 0, static_cast<int64_t>(bad.size()) - 1);
            bad.erase(static_cast<size_t>(at), static_cast<size_t>(sim::choose("lost", 1, sim::chance("few", 60) ? 6 : 600)));
            sim::fault("lost-bytes", 1000);
            break;
        }
        case 3:  // a sector was never written
        {
            const auto size = sim::pick<size_t>("sector", {8, 64, 512});
            const auto at   = static_cast<size_t>(sim::choose("at", 0, static_cast<int64_t>(bad.size()) - 1)) / size * size;
            for (size_t i = at; i < std::min(bad.size(), at + size); ++i)
            {
                bad[i] = '\0';
            }
            sim::fault("lost-sector", 1000);
            break;
        }
        case 4:  // a value is missing or another
        case 5:
        {
            std::vector<std::pair<size_t, size_t>> values;  // what stands between brackets, quotation marks or blanks
            const std::string                      ends = "<>\" \n";
            for (size_t i = 0; i < bad.size();)
            {
                auto k = bad.find_first_of(ends, i);
                k      = k == std::string::npos ? bad.size() : k;
                if (k > i)
                {
                    values.emplace_back(i, k - i);
                }
                i = k + 1;
            }
            if (values.empty())
            {
                sim::discard("nothing to damage");
            }
            std::map<std::string, std::vector<size_t>> by_name;  // by what stands before it, so that rare ones are met as well
            for (size_t i = 0; i < values.size(); ++i)
            {
                const auto before = i == 0 ? std::string{} : bad.substr(values[i - 1].first, values[i - 1].second);
                if (before.empty() || std::isalpha(static_cast<unsigned char>(before[0])) != 0)
                {
                    by_name[before].push_back(i);
                }
                else
                {
                    by_name["#"].push_back(i);
                }
            }
            const auto& group     = std::next(by_name.begin(), static_cast<std::ptrdiff_t>(sim::choose("name", 0, static_cast<int64_t>(by_name.size()) - 1)))->second;
            const auto [at, size] = values[group[static_cast<size_t>(sim::choose("value", 0, static_cast<int64_t>(group.size()) - 1))]];
            const auto [o, osize] = values[static_cast<size_t>(sim::choose("other", 0, static_cast<int64_t>(values.size()) - 1))];
            const auto other      = bad.substr(o, osize);
            bad.replace(at, size, sim::pick<std::string>("by", {std::string{}, std::string{}, std::string{}, other, other, other, "-1", "7", "99999999999999999999", "4294967296", "fe", "x"}));
            sim::fault("damaged-value", 1000);
            break;
        }
        default:  // a part is there twice, or where another belongs
        {
            const auto at   = static_cast<size_t>(sim::choose("at", 0, static_cast<int64_t>(bad.size()) - 1));
            const auto from = static_cast<size_t>(sim::choose("from", 0, static_cast<int64_t>(bad.size()) - 1));
            const auto part = bad.substr(from, static_cast<size_t>(sim::choose("size", 1, 40)));
            sim::chance("over", 50) ? bad.replace(at, part.size(), part) : bad.insert(at, part);
            sim::fault("misplaced-bytes", 1000);
            break;
        }
    }
    spill(name, bad);
    sim::nontrivial();
    sim::disk_reset();
    const auto r = read_somehow(t, name);
    sim::probe(r.threw ? "damage-refused" : "damage-read");
    sim::note(r.said);
}

// several callers read at the same time, some the same file
SIM_SCENARIO(callers, 3)
{
    const auto        n      = sim::choose("callers", 2, 4);
    const bool        shared = sim::chance("shared", 40);
    std::vector<text> ts;
    const auto        name = [](size_t i) { return sim::scratch_dir() + "in" + std::to_string(i) + ".dat"; };
    for (int64_t i = 0; i < n; ++i)
    {
        ts.push_back(shared && i > 0 ? ts[0] : draw_text());
        spill(name(static_cast<size_t>(i)), ts.back().file);
    }
    sim::nontrivial();
    sim::disk_reset();
    if (sim::chance("chunky", 50))
    {
        sim::disk_chunk(sim::pick<int64_t>("chunk", {64, 512, 4096}));
    }
    std::vector<outcome>     r(ts.size());
    std::vector<std::thread> th;
    for (size_t i = 0; i < ts.size(); ++i)
    {
        th.emplace_back([&, i] { r[i] = call([&] { return ts[i].by_name(name(shared ? 0 : i)); }); });
    }
    for (auto& x : th)
    {
        x.join();
    }
    for (size_t i = 0; i < ts.size(); ++i)
    {
        SIM_CHECK(!r[i].threw, "spurious-failure", "caller %zu could not read the %s: %s", i, ts[i].what, r[i].error.c_str());
        SIM_CHECK(r[i].said == ts[i].meaning, "silent-loss", "caller %zu read the %s as %s", i, ts[i].what, differ(r[i].said, ts[i].meaning).c_str());
    }
    sim::probe("callers");
}
