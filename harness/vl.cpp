// Conformance harness: drives the real NC parser of /repo through the flat interface of its library, as its
// .NET client does. Same protocol as vh.cpp; the tables and the settings are read here, not by the server's readers.
#include <cstdio>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

#include <AllAttributesParserBase.h>
#include <AllAttributesParserWrapperBase.h>
#include <GeneralParserDefines.h>
#include <fanuc/AllAttributesParserDefines.h>
#include <fanuc/AllAttributesParserWrapper.h>
#include <fanuc/CodeGroupsDefines.h>

namespace pt = boost::property_tree;
using namespace parser;

static std::string unesc(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\' && i + 1 < s.size())
        {
            ++i;
            r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i] == 'r' ? '\r' : s[i] == '0' ? '\0' : s[i];
        }
        else
            r += s[i];
    return r;
}

static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s)
        switch (c)
        {
        case '\t': r += "\\t"; break;
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\0': r += "\\0"; break;
        case '\\': r += "\\\\"; break;
        default: r += c;
        }
    return r;
}

static std::string dbl(double d)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}

static std::string                    root;
static AllAttributesParserWrapperBase* ap = nullptr;

// strings handed to the library live only as long as the call
struct Strings
{
    std::deque<std::string> s;
    char*                   operator()(const std::string& x)
    {
        s.push_back(x);
        return &s.back()[0];
    }
};

// the files do not change while this runs
static const pt::ptree& json(const std::string& p)
{
    static std::map<std::string, pt::ptree> m;
    auto                                    it = m.find(p);
    if (it == m.end())
    {
        it = m.emplace(p, pt::ptree{}).first;
        pt::read_json(p, it->second);
    }
    return it->second;
}

struct Group
{
    std::vector<const char*>            keys;
    std::vector<fanuc::CodeGroupValue> vals;
    std::vector<int>                    n;
    Strings                             str;
    void                                read(const std::string& p)
    {
        const pt::ptree& t = json(p);
        for (const auto& [k, arr] : t.get_child("groups"))
        {
            keys.push_back(str(k));
            int c = 0;
            for (const auto& [_, g] : arr)
                vals.push_back({g.get<unsigned>("code"), g.get<unsigned>("rest")}), ++c;
            n.push_back(c);
        }
    }
};

static ParserSettings flags(const std::string& f)
{
    auto b = [&](size_t i) { return i >= f.size() || f[i] == '1'; };
    return {b(0), b(1), b(2), b(3), b(4)};
}

static bool settings(const std::string& path)
{
    const pt::ptree& t = json(path);
    Strings             str;
    std::vector<char*>  bk, tk;
    std::vector<double> bv, tv;
    for (const auto& [a, v] : t.get_child("machine_points_data.machine_base_point"))
        bk.push_back(str(a)), bv.push_back(v.get_value<double>());
    for (const auto& [a, v] : t.get_child("machine_points_data.tool_exchange_point"))
        tk.push_back(str(a)), tv.push_back(v.get_value<double>());
    const auto&       k = t.get_child("kinematics");
    KinematicsWrapper kw{k.get<double>("max_working_feed"),
                         k.get<double>("max_fast_feed"),
                         k.get<int>("maximum_spindle_speed"),
                         k.get<int>("numer_of_items_in_the_warehouse"),
                         k.get<int>("tool_exchange_time"),
                         k.get<int>("pallet_exchange_time"),
                         k.get<int>("tool_measurement_time"),
                         k.get<bool>("diameter_programming_2x"),
                         k.get<bool>("auto_measure_after_tool_selection"),
                         str(k.get<std::string>("pallet_exchange_code")),
                         str(k.get<std::string>("pallet_exchange_code_value")),
                         str(k.get<std::string>("tool_measurement_code")),
                         str(k.get<std::string>("tool_measurement_code_value"))};
    std::vector<AxisParametersWrapper> ax;
    for (const auto& [a, v] : k.get_child("cartesian_system_axis"))
        ax.push_back({str(a), v.get<double>("range_min"), v.get<double>("range_max")});
    const auto&      c = t.get_child("cnc_default_values");
    CncDefaultValues d{};
    d.default_motion                          = c.get<EMotion>("default_motion");
    d.default_work_plane                      = c.get<EWorkPlane>("default_work_plane");
    d.default_driver_units                    = c.get<EDriverUnits>("default_driver_units");
    d.default_programming                     = c.get<EProgrammingType>("default_programming");
    d.default_feed_mode                       = c.get<EFeedMode>("default_feed_mode");
    d.default_rotation_direction              = c.get<ERotationDirection>("default_rotation_direction");
    d.drill_cycle_z_value                     = c.get<EDepthProgrammingType>("drill_cycle_z_value");
    d.drill_cycle_return_value                = c.get<EDrillGreturnMode>("drill_cycle_return_value");
    d.default_rotation                        = c.get<int>("default_rotation");
    d.rapid_traverse_cancel_cycle             = c.get<bool>("rapid_traverse_cancel_cycle");
    d.linear_interpolation_cancel_cycle       = c.get<bool>("linear_interpolation_cancel_cycle");
    d.circular_interpolation_cw_cancel_cycle  = c.get<bool>("circular_interpolation_cw_cancel_cycle");
    d.circular_interpolation_ccw_cancel_cycle = c.get<bool>("circular_interpolation_ccw_cancel_cycle");
    d.cycle_cancel_starts_rapid_traverse      = c.get<bool>("cycle_cancel_starts_rapid_traverse");
    d.operator_turns_on_rotation              = c.get<bool>("operator_turns_on_rotation");
    d.tool_number_executes_exchange           = c.get<bool>("tool_number_executes_exchange");
    d.auto_rapid_traverse_after_tool_exchange = c.get<bool>("auto_rapid_traverse_after_tool_exchange");
    ZeroPoint z{t.get<double>("zero_point.X"), t.get<double>("zero_point.Y"), t.get<double>("zero_point.Z")};
    SetNCSettings(ap, t.get<EMachineTool>("machine_tool"), t.get<EMachineToolType>("machine_tool_type"), bk.data(),
                  bv.data(), static_cast<int>(bk.size()), tk.data(), tv.data(), static_cast<int>(tk.size()), &kw,
                  ax.data(), static_cast<int>(ax.size()), &d, &z);
    return true;
}

static void grammar(const pt::ptree& t, Strings& s, std::vector<const char*>& k,
                    std::vector<fanuc::WordGrammarWrapper>& v)
{
    for (const auto& [w, g] : t)
    {
        k.push_back(s(w));
        v.push_back({s(g.get<std::string>("word")), g.get<int>("range_from"), g.get<int>("range_to"),
                     g.get<unsigned>("decimal_from"), g.get<unsigned>("decimal_to"), g.get<bool>("unique"),
                     g.get<fanuc::WordType>("type")});
    }
}

static void make(const std::string& set, const std::string& fl, bool bare, const std::string& driver)
{
    if (ap)
        DisposeAllAttributesParser(ap);
    ap             = nullptr;
    std::string dr = driver;
    if (!bare)
    {
        const pt::ptree& t = json(set);
        dr = t.get<std::string>("driver");
    }
    const std::string d = root + "/" + dr + "/";
    const pt::ptree& t = json(d + "grammar.json");
    Strings                                str;
    std::vector<const char*>               mk, ik, op;
    std::vector<fanuc::WordGrammarWrapper> mv, iv;
    grammar(t.get_child("metric"), str, mk, mv);
    grammar(t.get_child("imperial"), str, ik, iv);
    for (const auto& [_, o] : t.get_child("operations"))
        op.push_back(str(o.get_value<std::string>()));
    Group g, m;
    g.read(d + "gcode_groups.json");
    m.read(d + "mcode_groups.json");
    EFanucParserType   type{};
    std::istringstream(dr) >> type;
    const ParserSettings ps = flags(fl);
    const OtherSettings  os{ELanguage::English};
    ap = fanuc::CreateFanucAllAttributesParser(
        mk.data(), mv.data(), static_cast<int>(mk.size()), ik.data(), iv.data(), static_cast<int>(ik.size()), op.data(),
        static_cast<int>(op.size()), g.keys.data(), g.vals.data(), static_cast<int>(g.keys.size()), g.n.data(),
        m.keys.data(), m.vals.data(), static_cast<int>(m.keys.size()), m.n.data(), &ps, &os, type, bare);
    ResetMacroValues(ap);
    if (!bare)
        settings(set);
}

static std::string state()
{
    PathResultWrapper* p = nullptr;
    TimeResultWrapper* t = nullptr;
    WordResultRange*   w = nullptr;
    int                n = 0, u = 0;
    GetPathValues(ap, p, t, &w, &n, &u);
    std::string r = dbl(p->total) + "\t" + dbl(p->work_motion) + "\t" + dbl(p->fast_motion) + "\t" +
                    dbl(p->tool_total) + "\t" + esc(p->tool_id) + "\t" + dbl(t->total) + "\t" + dbl(t->work_motion) +
                    "\t" + dbl(t->fast_motion) + "\t" + dbl(t->tool_total) + "\t";
    const bool same = !std::strcmp(p->tool_id, t->tool_id);
    std::string x;
    for (int i = 0; i < n; ++i)
    {
        r += std::string(w[i].word) + "=" + dbl(w[i].value) + ";";
        x += std::string(w[i].word) + "=" + dbl(w[i].value_min) + "," + dbl(w[i].value_max) + ";";
    }
    DisposePathValues(p, t, w, n);
    r += "\t";
    r += u == static_cast<int>(EDriverUnits::Inch) ? "in" : "mm";
    return r + "\t" + x + "\t" + (same ? "1" : "0");
}

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    size_t                   b = 0;
    while (true)
    {
        const auto e = s.find(c, b);
        r.push_back(s.substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos)
            return r;
        b = e + 1;
    }
}

struct Answer
{
    WordValueWrapper* v = nullptr;
    int               n = 0;
    char*             m = nullptr;
    std::string       words() const
    {
        std::string r;
        for (int i = 0; i < n; ++i)
        {
            if (i) r += '\x1f';
            r += std::string(v[i].word) + v[i].value;
        }
        return r;
    }
    std::string message() const { return m ? m : ""; }
    ~Answer()
    {
        DisposeWordValueWrapper(v, n);
        DisposeCharArray(m);
    }
};

static std::string run(const std::vector<std::string>& c)
{
    const auto& k = c[0];
    auto        a = [&](size_t i) { return i < c.size() ? unesc(c[i]) : std::string(); };
    if (k == "new") // settings, flags
    {
        const std::string f = a(2);
        make(a(1), f == "0" ? "11011" : f.empty() ? "11111" : f, false, "");
        return "ok";
    }
    if (k == "heap") // the parser is given back; what is still in use
    {
        if (ap)
            DisposeAllAttributesParser(ap);
        ap = nullptr;
        return std::to_string(__sanitizer_get_current_allocated_bytes());
    }
    if (k == "bare") // driver: without settings, analyses off
    {
        make("", a(2).empty() ? "11000" : a(2), true, a(1));
        return "ok";
    }
    if (k == "flags")
    {
        const ParserSettings ps = flags(a(1));
        SetParserSettings(ap, &ps);
        return "ok";
    }
    if (k == "settings")
    {
        settings(a(1));
        return "ok";
    }
    if (k == "reset")
    {
        ResetPathValues(ap);
        return "ok";
    }
    if (k == "resetvars")
    {
        ResetMacroValues(ap);
        return "ok";
    }
    if (k == "parse" || k == "judge" || k == "words") // line text
    {
        Answer            x;
        bool              ok;
        const std::string text = a(2);
        if (k == "judge")
            ok = Parse(ap, std::stoi(c[1]), text.c_str(), &x.m, true);
        else
            ok = ParseValue(ap, std::stoi(c[1]), text.c_str(), &x.v, &x.n, &x.m, true);
        if (k == "words")
            return std::string(ok ? "1" : "0") + "\t" + esc(x.message()) + "\t" + esc(x.words());
        return std::string(ok ? "1" : "0") + "\t" + esc(x.message()) + "\t" + state() + "\t" + esc(x.words());
    }
    if (k == "state")
        return "1\t\t" + state() + "\t";
    if (k == "vars" || k == "linevars")
    {
        int*        i = nullptr;
        int*        l = nullptr;
        double*     v = nullptr;
        int         n = 0;
        std::string r;
        if (k == "vars")
            GetMacroValues(ap, &i, &l, &v, &n);
        else
            GetLineMacroValues(ap, std::stoi(c[1]), &i, &v, &n);
        for (int x = 0; x < n; ++x)
            r += std::to_string(i[x]) + "@" + (l ? std::to_string(l[x]) : c[1]) + "=" + dbl(v[x]) + ";";
        DisposeMacroValues(i, l, v);
        return r;
    }
    Answer            x;
    bool              ok{};
    const std::string t1 = a(1), t2 = a(2);
    if (k == "conv") // in|mm text
        ok = ConvertLength(ap, 1, t2.c_str(), &x.v, &x.n, &x.m, true,
                           c[1] == "in" ? UnitConversionType::metric_to_imperial
                                        : UnitConversionType::imperial_to_metric);
    else if (k == "rot") // option text
        ok = RotateAxes(ap, 1, t2.c_str(), &x.v, &x.n, &x.m, true, static_cast<AxesRotatingOption>(std::stoi(c[1])));
    else if (k == "unnum")
        ok = RemoveNumbering(ap, 1, t1.c_str(), &x.v, &x.n, &x.m, true);
    else if (k == "numreset") // start or nothing
    {
        RenumberReset(ap);
        if (c.size() > 1 && !c[1].empty())
            SetRenumberStartValue(ap, static_cast<unsigned>(std::stoul(c[1])));
        return "ok";
    }
    else if (k == "renum") // word step freq max existing zeroes text
    {
        std::string             w  = c[1];
        const std::string       t7 = a(7);
        RenumberSettingsWrapper rs{&w[0],
                                   static_cast<unsigned>(std::stoul(c[2])),
                                   static_cast<unsigned>(std::stoul(c[3])),
                                   static_cast<unsigned>(std::stoul(c[4])),
                                   c[5] == "1",
                                   c[6] == "1"};
        ok = Renumber(ap, 1, t7.c_str(), &x.v, &x.n, &x.m, true, &rs);
    }
    else if (k == "uncom")
        ok = RemoveComment(ap, 1, t1.c_str(), &x.v, &x.n, &x.m, true);
    else if (k == "unopt")
        ok = RemoveOptionalBlock(ap, 1, t1.c_str(), &x.v, &x.n, &x.m, true);
    else if (k == "split" || k == "splits") // type step time path text rapid retract lines...
    {
        std::string          tx = a(5), rp = a(7);
        FileSplittingWrapper fs{};
        fs.type = c[1] == "blocks" ? FileSplittingType::block_numbers
                  : c[1] == "tool" ? FileSplittingType::tool_change
                  : c[1] == "time" ? FileSplittingType::work_motion_time
                  : c[1] == "path" ? FileSplittingType::work_motion_path
                                   : FileSplittingType::text;
        fs.step                = std::stoi(c[2]);
        fs.time                = std::stoi(c[3]);
        fs.path                = std::stoi(c[4]);
        fs.text                = &tx[0];
        fs.rapid_traverse_only = c[6] == "1";
        fs.retraction_plane    = &rp[0];
        std::vector<std::string> lines;
        for (size_t i = 8; i < c.size(); ++i)
            lines.push_back(a(i));
        std::vector<const char*> data;
        for (const auto& l : lines)
            data.push_back(l.c_str());
        char*       m = nullptr;
        std::string r;
        if (k == "splits")
        {
            char** v = nullptr;
            int    n = 0;
            ok       = SplitFileString(ap, &fs, data.data(), static_cast<int>(data.size()), &v, &n, &m, true);
            for (int i = 0; i < n; ++i)
                r += "\t" + esc(v[i] ? v[i] : "");
            DisposeSplitFileString(v, n);
        }
        else
        {
            WordValueWrapper* v   = nullptr;
            int *             vvl = nullptr, *vl = nullptr, n = 0;
            ok = SplitFile(ap, &fs, data.data(), static_cast<int>(data.size()), &v, &vvl, &vl, &n, &m, true);
            int b = 0, w = 0;
            for (int i = 0; i < n; ++i)
            {
                r += "\t";
                for (int j = 0; j < vl[i]; ++j, ++b)
                {
                    if (j)
                        r += '\x1e';
                    std::string t;
                    for (int z = 0; z < vvl[b]; ++z, ++w)
                    {
                        if (z) t += '\x1f';
                        t += std::string(v[w].word) + v[w].value;
                    }
                    r += esc(t);
                }
                if (!vl[i])
                    r += '\x1d';
            }
            DisposeSplitFile(v, vvl, vl, n);
        }
        r = std::string(ok ? "1" : "0") + "\t" + esc(m ? m : "") + r;
        DisposeCharArray(m);
        return r;
    }
    else
        return "??";
    return std::string(ok ? "1" : "0") + "\t" + esc(x.message()) + "\t" + esc(x.words());
}

int main(int argc, char** argv)
{
    root = argc > 1 ? argv[1] : "/repo/conf";
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string out;
        try
        {
            out = run(split(line, '\t'));
        }
        catch (const std::exception& e)
        {
            out = std::string("EXC\t") + esc(e.what());
        }
        catch (...)
        {
            out = "EXC\tunknown";
        }
        out += '\n';
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
    }
    if (ap)
        DisposeAllAttributesParser(ap);
}
