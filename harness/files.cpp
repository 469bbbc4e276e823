// I02: a file that was written without an error being reported is complete, whatever the disk does meanwhile.
#include "io.hpp"

#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/io/dot_drawers.hpp>
#include <fiction/io/write_defect_influence_domain.hpp>
#include <fiction/io/write_fgl_layout.hpp>
#include <fiction/io/write_fqca_layout.hpp>
#include <fiction/io/write_location_and_ground_state.hpp>
#include <fiction/io/write_operational_domain.hpp>
#include <fiction/io/write_qca_layout.hpp>
#include <fiction/io/write_qcc_layout.hpp>
#include <fiction/io/write_qll_layout.hpp>
#include <fiction/io/write_sqd_layout.hpp>
#include <fiction/io/write_sqd_sim_result.hpp>
#include <fiction/io/write_svg_layout.hpp>

#include <memory>
#include <thread>

namespace
{
using namespace iot;

struct job
{
    const char*                             what{""};
    std::function<void(std::ostream&)>      to_stream{};
    std::function<void(const std::string&)> to_file{};
    std::string                             content{};  // what a working disk holds afterwards (dates masked)
    std::function<void()>                   untouched{};  // the object written is as it was
};

template <typename T, typename F>
job of(const char* what, T t, F write)
{
    auto p = std::make_shared<T>(std::move(t));
    job  j;
    j.what      = what;
    j.to_stream = [p, write](std::ostream& o) { write(std::as_const(*p), o); };
    j.to_file   = [p, write](const std::string& n) { write(std::as_const(*p), std::string_view{n}); };
    return j;
}
std::string rows_of(const std::string& s)
{
    std::multiset<std::string> rows;
    std::istringstream         in{s};
    std::string                line, head;
    std::getline(in, head);
    while (std::getline(in, line))
    {
        rows.insert(line);
    }
    for (const auto& r : rows)
    {
        head += "\n" + r;
    }
    return head + "\n";
}
// an independent rendering of the values
std::string plain(double v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
template <typename Dom>
job a_domain(bool critical)
{
    Dom        d{};
    const auto dims = sim::choose("dims", 1, 3);
    static constexpr std::array sweep{sweep_parameter::EPSILON_R, sweep_parameter::LAMBDA_TF, sweep_parameter::MU_MINUS};
    static const char* const    names[] = {"epsilon_r", "lambda_tf", "mu_minus"};
    std::string                 want;
    const auto                  first = sim::choose("first", 0, 2);
    for (int64_t i = 0; i < dims; ++i)
    {
        d.add_dimension(sweep[static_cast<size_t>((first + i) % 3)]);
        want += std::string{names[(first + i) % 3]} + ",";
    }
    want += critical ? "operational status,critical temperature\n" : "operational status\n";
    const bool        only = sim::chance("only", 40);
    const bool        tags = sim::chance("tags", 40);
    const auto        n    = sim::choose("points", 0, sim::chance("many", 20) ? 700 : 40);
    std::set<std::vector<double>> seen;
    for (int64_t i = 0; i < n; ++i)
    {
        std::vector<double> p;
        for (int64_t k = 0; k < dims; ++k)
        {
            p.push_back(static_cast<double>(sim::choose("v", -30, 90)) / 8);
        }
        if (!seen.insert(p).second)
        {
            continue;
        }
        const bool op = sim::chance("op", 50);
        const auto st = op ? operational_status::OPERATIONAL : operational_status::NON_OPERATIONAL;
        std::string row;
        for (const auto v : p)
        {
            row += plain(v) + ",";
        }
        row += tags ? (op ? "yes" : "no") : (op ? "1" : "0");
        if constexpr (std::is_same_v<Dom, critical_temperature_domain>)
        {
            const double ct = static_cast<double>(sim::choose("ct", 0, 4000)) / 10;
            d.add_value(parameter_point{p}, std::make_tuple(st, ct));
            row += "," + plain(ct);
        }
        else
        {
            d.add_value(parameter_point{p}, std::make_tuple(st));
        }
        if (op || !only)
        {
            want += row + "\n";
        }
    }
    auto j = of(critical ? "critical temperature domain" : "operational domain", std::move(d),
                [only, tags](const auto& x, auto&& to)
                {
                    write_operational_domain_params ps{};
                    ps.writing_mode = only ? write_operational_domain_params::sample_writing_mode::OPERATIONAL_ONLY : write_operational_domain_params::sample_writing_mode::ALL_SAMPLES;
                    if (tags)
                    {
                        ps.operational_tag     = "yes";
                        ps.non_operational_tag = "no";
                    }
                    write_operational_domain(x, to, ps);
                });
    std::ostringstream o;
    j.to_stream(o);
    SIM_CHECK(rows_of(o.str()) == rows_of(want), "wrong-content", "the %s is written as '%s' instead of '%s'", j.what, shorten(rows_of(o.str())).c_str(), shorten(rows_of(want)).c_str());
    return j;
}
job an_influence_domain()
{
    defect_influence_domain<siqad_lyt> d{};
    std::string                        want = "x,y,operational status\n";
    const bool                         tags = sim::chance("tags", 40);
    const auto                         n    = sim::choose("points", 0, 60);
    std::set<std::pair<int, int>>      seen;
    for (int64_t i = 0; i < n; ++i)
    {
        const auto x = static_cast<int>(sim::choose("x", 0, 12)), y = static_cast<int>(sim::choose("y", 0, 9));
        if (!seen.insert({x, y}).second)
        {
            continue;
        }
        const bool inf = sim::chance("influential", 50);
        d.add_value(siqad::coord_t{x, y, 0}, std::make_tuple(inf ? defect_influence_status::INFLUENTIAL : defect_influence_status::NON_INFLUENTIAL));
        want += std::to_string(x) + "," + std::to_string(y) + "," + (tags ? (inf ? "y" : "n") : (inf ? "influential" : "non-influential")) + "\n";
    }
    auto j = of("defect influence domain", std::move(d),
                [tags](const auto& x, auto&& to)
                {
                    write_defect_influence_domain_params ps{};
                    if (tags)
                    {
                        ps.influential_tag     = "y";
                        ps.non_influential_tag = "n";
                    }
                    write_defect_influence_domain(x, to, ps);
                });
    std::ostringstream o;
    j.to_stream(o);
    SIM_CHECK(rows_of(o.str()) == rows_of(want), "wrong-content", "the %s is written as '%s' instead of '%s'", j.what, shorten(rows_of(o.str())).c_str(), shorten(rows_of(want)).c_str());
    return j;
}
sidb_simulation_result<siqad_lyt> a_result()
{
    siqad_lyt l{};
    put_sidbs(l, 5);
    if (l.num_cells() == 0)
    {
        l.assign_cell_type({1, 1, 0}, sidb_technology::cell_type::NORMAL);
    }
    l.foreach_cell([&](const auto& c) { l.assign_cell_type(c, sidb_technology::cell_type::NORMAL); });
    return exhaustive_ground_state_simulation(l, sidb_simulation_parameters{sim::pick<uint8_t>("base", {2, 3}), -0.32});
}
job draw_job()
{
    const sim::quiet q;
    job              j;
    const auto       kind = sim::choose("kind", 0, 14);
    switch (kind)
    {
        case 0: j = a_domain<operational_domain>(false); break;
        case 1: j = a_domain<critical_temperature_domain>(true); break;
        case 2: j = an_influence_domain(); break;
        case 3: j = of("location and ground state", a_result(), [](const auto& x, auto&& to) { write_location_and_ground_state(x, to); }); break;
        case 4: j = of("SQD simulation result", a_result(), [](const auto& x, auto&& to) { write_sqd_sim_result(x, to); }); break;
        case 5: j = of("SQD layout", sidbs<siqad_lyt>(), [](const auto& x, auto&& to) { write_sqd_layout(x, to); }); break;
        case 6: j = of("SQD layout with defects", sidbs<defect_cart>(), [](const auto& x, auto&& to) { write_sqd_layout(x, to); }); break;
        case 7:
            j = of("FQCA layout", a_qca<tall_qca>(true, 2),
                   [vias = sim::chance("vias", 20)](const auto& x, auto&& to)
                   {
                       write_fqca_layout_params ps{};
                       ps.create_inter_layer_via_cells = vias;
                       write_fqca_layout(x, to, ps);
                   });
            break;
        case 8:
            j = of("QCADesigner layout", a_qca<tall_qca>(false, 2),
                   [vias = sim::chance("vias", 50)](const auto& x, auto&& to)
                   {
                       write_qca_layout_params ps{};
                       ps.create_inter_layer_via_cells = vias;
                       write_qca_layout(x, to, ps);
                   });
            break;
        case 9: j = of("QCC layout", an_inml(), [](const auto& x, auto&& to) { write_qcc_layout(x, to); }); break;
        case 10:
            j = sim::chance("inml", 50) ? of("QLL layout", an_inml(), [](const auto& x, auto&& to) { write_qll_layout(x, to); }) :
                                          of("QLL layout", a_qca<flat_qca>(false, 1), [](const auto& x, auto&& to) { write_qll_layout(x, to); });
            break;
        case 11: j = of("SVG of a QCA layout", a_qca<flat_qca>(false, 0), [](const auto& x, auto&& to) { write_qca_layout_svg(x, to); }); break;
        case 12:
            j = sim::chance("sidb", 50) ? of("SVG of an SiDB layout", sidbs<siqad_lyt>(), [](const auto& x, auto&& to) { write_sidb_layout_svg(x, to); }) :
                                          of("SVG of a molQCA layout", a_molqca(), [](const auto& x, auto&& to) { write_mol_qca_layout_svg(x, to); });
            break;
        case 13: j = of("FGL layout", sim::chance("routed", 50) ? routed_gates() : loose_gates<cart_gate_clk_lyt>(), [](const auto& x, auto&& to) { write_fgl_layout(x, to); }); break;
        default:
            j = of("DOT drawing", sim::chance("routed", 50) ? routed_gates() : loose_gates<cart_gate_clk_lyt>(),
                   [](const auto& x, auto&& to)
                   {
                       using l = std::decay_t<decltype(x)>;
                       write_dot_layout(x, to, gate_layout_cartesian_drawer<l>{});
                   });
            break;
    }
    std::ostringstream o;
    j.to_stream(o);
    SIM_CHECK(o.good(), "stream-failed", "writing the %s leaves a working stream failed", j.what);
    j.content = undated(o.str());
    sim::describe("%s, %zu bytes", j.what, j.content.size());
    sim::note(j.content);
    return j;
}
// a way the disk goes wrong; returns whether the write can fail
bool break_disk(size_t size)
{
    const sim::quiet q;
    bool             fails = false;
    sim::disk_reset();
    const auto k = sim::choose("disk", 0, 9);
    if (k <= 5)
    {
        const auto at = sim::chance("late", 35) ? std::max<int64_t>(0, static_cast<int64_t>(size) - sim::choose("from-end", 0, 40)) : sim::choose("at", 0, static_cast<int64_t>(size) + 20);
        sim::disk_fail_write_at(at, sim::pick("errno", {ENOSPC, EIO, EDQUOT, EFBIG}));
        fails = true;
    }
    if (k == 6)
    {
        sim::disk_fail_open(sim::pick("errno", {EACCES, EMFILE, ENOSPC, EROFS}));
        fails = true;
    }
    if (k >= 7 || sim::chance("chunky", 30))
    {
        sim::disk_chunk(sim::pick<int64_t>("chunk", {1, 3, 17, 512, 4096}));
    }
    return fails;
}
struct outcome
{
    bool threw = false;
    bool io    = false;  // it was a stream failure
};
outcome call(const std::function<void()>& f)
{
    outcome r;
    try
    {
        f();
    }
    catch (const std::ios_base::failure&)
    {
        r = {true, true};
    }
    catch (const std::exception&)
    {
        r.threw = true;
    }
    return r;
}
void judge(const job& j, const outcome& r, const std::string& got, bool fails, bool opened, const std::string& old)
{
    const sim::quiet q;
    const auto       now = undated(got);
    if (!r.threw)
    {
        SIM_CHECK(now == j.content, "silent-loss", "the %s was written without an error, but the file holds %zu of %zu bytes and ends in '%s'", j.what, now.size(), j.content.size(), shorten(now).c_str());
        sim::probe("complete");
        return;
    }
    SIM_CHECK(r.io, "wrong-exception", "writing the %s to a failing disk threw something that is no stream failure", j.what);
    SIM_CHECK(fails, "spurious-failure", "writing the %s failed on a disk that works", j.what);
    if (!opened)
    {
        SIM_CHECK(got == old, "touched", "the file could not be opened but changed");
        sim::probe("not-opened");
        return;
    }
    const auto cut = j.content.substr(0, now.size());
    // a date cut short cannot be masked
    size_t k = 0;
    while (k < now.size() && k < cut.size() && now[k] == cut[k])
    {
        ++k;
    }
    SIM_CHECK(k == now.size() || (now.size() - k < 19 && j.content.compare(k, 4, "DATE") == 0), "not-a-prefix", "the %s on the failing disk is no beginning of the content: '%s'", j.what, shorten(now).c_str());
    sim::probe("reported");
}
}  // namespace

// one file, written to a disk that fails, splits writes or refuses; possibly over an older, longer file
SIM_SCENARIO(file, 6)
{
    const auto        j    = draw_job();
    const std::string name = sim::scratch_dir() + "out.dat";
    std::string       old{};
    if (sim::chance("replace", 40))
    {
        old = std::string(static_cast<size_t>(sim::choose("old", 0, static_cast<int64_t>(j.content.size()) * 2)), '#');
        spill(name, old);
    }
    sim::nontrivial();
    const bool fails  = break_disk(j.content.size());
    const auto before = sim::disk_faults_fired();
    const auto r      = call([&] { j.to_file(name); });
    const auto fired  = sim::disk_faults_fired() - before;
    const bool opened = !(r.threw && fired == 1 && sim::disk_written() == 0) ;
    const auto got    = slurp(name);
    judge(j, r, got, fails && fired > 0, opened || got.empty(), old);
    // once the disk works again, so does writing
    sim::disk_reset();
    const auto again = call([&] { j.to_file(name); });
    SIM_CHECK(!again.threw, "no-recovery", "the %s cannot be written after the disk recovered", j.what);
    judge(j, again, slurp(name), false, true, old);
}

// the stream overload reports in the stream's state what its device refused
SIM_SCENARIO(stream, 2)
{
    const auto        j    = draw_job();
    const std::string name = sim::scratch_dir() + "stream.dat";
    sim::nontrivial();
    std::ofstream os{name};
    if (!os)
    {
        sim::discard("open");
    }
    sim::disk_reset();
    const auto at = sim::choose("at", 0, static_cast<int64_t>(j.content.size()) + 20);
    sim::disk_fail_write_at(at, sim::pick("errno", {ENOSPC, EIO}));
    if (sim::chance("chunky", 30))
    {
        sim::disk_chunk(sim::pick<int64_t>("chunk", {1, 3, 17, 512}));
    }
    const auto r = call([&] { j.to_stream(os); });
    SIM_CHECK(!r.threw, "unasked-exception", "the %s writer threw although the stream does not ask for exceptions", j.what);
    os.close();
    const bool ok  = static_cast<bool>(os);
    const auto got = undated(slurp(name));
    SIM_CHECK(!ok || got == j.content, "silent-loss", "the stream is good after the %s, but its device holds %zu of %zu bytes", j.what, got.size(), j.content.size());
    sim::probe(ok ? "complete" : "reported");
}

// several callers write files of their own at the same time, some of them the same object
SIM_SCENARIO(callers, 3)
{
    const auto        n = sim::choose("callers", 2, 4);
    std::vector<job>  js;
    const bool        shared = sim::chance("shared", 50);
    for (int64_t i = 0; i < n; ++i)
    {
        // a topological traversal leaves marks in the gate-level layout it visits: one caller at a time, as with every network
        js.push_back(shared && i > 0 && std::strcmp(js[0].what, "FGL layout") != 0 ? js[0] : draw_job());
    }
    sim::nontrivial();
    sim::disk_reset();
    if (sim::chance("chunky", 50))
    {
        sim::disk_chunk(sim::pick<int64_t>("chunk", {64, 512, 4096}));
    }
    std::vector<outcome>     r(js.size());
    std::vector<std::thread> ts;
    const auto               name = [](size_t i) { return sim::scratch_dir() + "out" + std::to_string(i) + ".dat"; };
    for (size_t i = 0; i < js.size(); ++i)
    {
        ts.emplace_back([&, i] { r[i] = call([&] { js[i].to_file(name(i)); }); });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    for (size_t i = 0; i < js.size(); ++i)
    {
        judge(js[i], r[i], slurp(name(i)), false, true, "");
    }
    sim::probe("callers");
}
