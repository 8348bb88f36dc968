// Conformance harness: drives the real NC parser of /repo through the interfaces its own
// server and unit tests use. Reads one command per line (tab separated, \t \n \r \\ escaped),
// writes one answer line per command.
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <boost/variant.hpp>

#include <fanuc/AllAttributesParser.h>
#include <fanuc/ValueCalculator.h>

#include "../nclangsrv/CodeGroupsReader.h"
#include "../nclangsrv/NCSettingsReader.h"
#include "../nclangsrv/WordGrammarReader.h"

using namespace parser;
using parser::fanuc::AttributeVariant;

static std::string unesc(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\' && i + 1 < s.size())
        {
            ++i;
            r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i] == 'r' ? '\r' : s[i] == '0' ? '\0' : s[i];
        }
        else
            r += s[i];
    return r;
}

static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s)
        switch (c)
        {
        case '\t': r += "\\t"; break;
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\0': r += "\\0"; break;
        case '\\': r += "\\\\"; break;
        default: r += c;
        }
    return r;
}

static std::string dbl(double d)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}

struct TextVisitor : boost::static_visitor<std::string>
{
    std::string operator()(const fanuc::DecimalAttributeData& d) const
    {
        std::string t = d.word;
        if (d.assign) t += *d.assign;
        if (d.sign) t += *d.sign;
        if (d.open_bracket) t += *d.open_bracket;
        if (d.macro) t += *d.macro;
        if (d.value) t += *d.value;
        if (d.dot) t += *d.dot;
        if (d.value2) t += *d.value2;
        if (d.close_bracket) t += *d.close_bracket;
        return t;
    }
    std::string operator()(const fanuc::StringAttributeData& d) const
    {
        return d.word == "(" ? d.word + d.value + ")" : d.word + d.value;
    }
    std::string operator()(const fanuc::CharAttributeData& d) const
    {
        std::string t = d.word;
        if (d.value) t += d.value;
        return t;
    }
};

// the words of a block, separated by \x1f
static std::string words(const std::vector<AttributeVariant>& v)
{
    std::string r;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (i) r += '\x1f';
        r += boost::apply_visitor(TextVisitor(), v[i]);
    }
    return r;
}

struct Conf
{
    std::unique_ptr<nclangsrv::NCSettingsReader>  set;
    std::unique_ptr<nclangsrv::WordGrammarReader> wg;
    std::unique_ptr<nclangsrv::CodeGroupsReader>  gg, mg;
};

static std::string                                   root;
static Conf                                          conf;
static std::string                                   conf_path;
static std::unique_ptr<fanuc::AllAttributesParser>   ap;

static bool load(const std::string& settings)
{
    if (!settings.empty() && settings == conf_path && conf.set)
        return true;
    conf_path.clear();
    conf.set = std::make_unique<nclangsrv::NCSettingsReader>(settings, nullptr);
    if (!settings.empty() && !conf.set->read())
        return false;
    std::ostringstream drv;
    drv << conf.set->getFanucParserType();
    const std::string d = root + "/" + drv.str() + "/";
    conf.wg             = std::make_unique<nclangsrv::WordGrammarReader>(d + "grammar.json", nullptr);
    conf.gg             = std::make_unique<nclangsrv::CodeGroupsReader>(d + "gcode_groups.json", nullptr);
    conf.mg             = std::make_unique<nclangsrv::CodeGroupsReader>(d + "mcode_groups.json", nullptr);
    if (!conf.wg->read() || !conf.gg->read() || !conf.mg->read())
        return false;
    conf_path = settings;
    return true;
}

static void make_parser(bool calc)
{
    auto grammar    = conf.wg->getWordGrammar();
    auto operations = conf.wg->getOperations();
    auto gg         = conf.gg->getCodeGroups();
    auto mg         = conf.mg->getCodeGroups();
    ap              = std::make_unique<fanuc::AllAttributesParser>(
        fanuc::AllAttributesParser(std::move(grammar), std::move(operations), std::move(gg), std::move(mg),
                                   {true, true, calc, true, true}, {ELanguage::English}, conf.set->getFanucParserType()));
    ap->reset_macro_values();
    auto mp = conf.set->getMachinePointsData();
    auto ki = conf.set->getKinematics();
    auto cd = conf.set->getCncDefaultValues();
    auto zp = conf.set->getZeroPoint();
    ap->set_ncsettings(conf.set->getMachineTool(), conf.set->getMachineToolType(), std::move(mp), std::move(ki),
                       std::move(cd), std::move(zp));
}

static std::string state()
{
    const auto&       p = ap->get_path_result();
    const auto&       t = ap->get_time_result();
    std::string       r = dbl(p.total) + "\t" + dbl(p.work_motion) + "\t" + dbl(p.fast_motion) + "\t" + dbl(p.tool_total) +
                    "\t" + esc(p.tool_id) + "\t" + dbl(t.total) + "\t" + dbl(t.work_motion) + "\t" + dbl(t.fast_motion) +
                    "\t" + dbl(t.tool_total) + "\t";
    for (const auto& [w, x] : ap->get_word_range())
        r += w + "=" + dbl(std::get<1>(x)) + ";";
    r += "\t";
    r += ap->get_unit_system() == EDriverUnits::Inch ? "in" : "mm";
    return r;
}

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    size_t                   b = 0;
    while (true)
    {
        const auto e = s.find(c, b);
        r.push_back(s.substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos)
            return r;
        b = e + 1;
    }
}

static std::string run(const std::vector<std::string>& c)
{
    const auto& k = c[0];
    auto        a = [&](size_t i) { return i < c.size() ? unesc(c[i]) : std::string(); };
    if (k == "new") // settings, 0: without path calculation
    {
        if (!load(a(1)))
            return "NOCONF";
        make_parser(a(2) != "0");
        return "ok";
    }
    if (k == "reset")
    {
        ap->reset_attributes_path_calculator();
        return "ok";
    }
    if (k == "parse") // line text
    {
        fanuc::FanucAttributeData v;
        std::string               msg;
        const std::string         text = a(2);
        const bool                ok   = ap->parse(std::stoi(c[1]), text, v, msg, true);
        return std::string(ok ? "1" : "0") + "\t" + esc(msg) + "\t" + state();
    }
    if (k == "vars") // ids separated by , : latest value at any line; empty: all
    {
        std::string r;
        const auto& m = ap->get_macro_values();
        for (const auto& [key, val] : m)
            r += std::to_string(key.id) + "@" + std::to_string(key.line) + "=" + dbl(val) + ";";
        return r;
    }
    if (k == "expr") // text
    {
        std::string                  msg;
        double                       val{};
        fanuc::ValueCalculator       vc;
        const std::string            text = a(1);
        const bool ok = vc.parse(text, msg, true, ap->get_macro_values(), val, ELanguage::English);
        return std::string(ok ? "1" : "0") + "\t" + dbl(val) + "\t" + esc(msg);
    }
    fanuc::FanucAttributeData v;
    std::string               msg;
    bool                      ok{};
    if (k == "conv") // in|mm text
    {
        const std::string text = a(2);
        ok = ap->convert_length(1, text, v, msg, true,
                                c[1] == "in" ? UnitConversionType::metric_to_imperial
                                             : UnitConversionType::imperial_to_metric);
    }
    else if (k == "rot") // option text
    {
        const std::string text = a(2);
        ok                     = ap->rotate_axes(1, text, v, msg, true, static_cast<AxesRotatingOption>(std::stoi(c[1])));
    }
    else if (k == "unnum")
        ok = ap->remove_numbering(1, a(1), v, msg, true);
    else if (k == "numreset") // start or nothing
    {
        ap->renumber_reset();
        if (c.size() > 1 && !c[1].empty())
            ap->set_renumber_start_value(std::stoul(c[1]));
        return "ok";
    }
    else if (k == "renum") // word step freq max existing zeroes text
        ok = ap->renumber(1, a(7), v, msg, true,
                          {c[1], static_cast<unsigned>(std::stoul(c[2])), static_cast<unsigned>(std::stoul(c[3])),
                           static_cast<unsigned>(std::stoul(c[4])), c[5] == "1", c[6] == "1"});
    else if (k == "uncom")
        ok = ap->remove_comment(1, a(1), v, msg, true);
    else if (k == "unopt")
        ok = ap->remove_optional_block(1, a(1), v, msg, true);
    else if (k == "split") // type step time path text rapid retract lines...
    {
        FileSplitting fs{};
        fs.type = c[1] == "blocks" ? FileSplittingType::block_numbers
                  : c[1] == "tool" ? FileSplittingType::tool_change
                  : c[1] == "time" ? FileSplittingType::work_motion_time
                  : c[1] == "path" ? FileSplittingType::work_motion_path
                                   : FileSplittingType::text;
        fs.step                = std::stoi(c[2]);
        fs.time                = std::stoi(c[3]);
        fs.path                = std::stoi(c[4]);
        fs.text                = a(5);
        fs.rapid_traverse_only = c[6] == "1";
        fs.retraction_plane    = a(7);
        std::vector<std::string> lines;
        for (size_t i = 8; i < c.size(); ++i)
            lines.push_back(a(i));
        std::vector<std::vector<std::vector<AttributeVariant>>> parts;
        ok            = ap->split_file(std::move(lines), parts, msg, true, fs);
        std::string r = std::string(ok ? "1" : "0") + "\t" + esc(msg);
        for (const auto& p : parts)
        {
            r += "\t";
            bool first = true;
            for (const auto& b : p)
            {
                if (!first)
                    r += '\x1e';
                first = false;
                r += esc(words(b));
            }
            if (p.empty())
                r += '\x1d';
        }
        return r;
    }
    else
        return "??";
    return std::string(ok ? "1" : "0") + "\t" + esc(msg) + "\t" + esc(words(v.value));
}

int main(int argc, char** argv)
{
    root = argc > 1 ? argv[1] : "/repo/conf";
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string out;
        try
        {
            out = run(split(line, '\t'));
        }
        catch (const std::exception& e)
        {
            out = std::string("EXC\t") + esc(e.what());
        }
        catch (...)
        {
            out = "EXC\tunknown";
        }
        out += '\n';
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
    }
}
