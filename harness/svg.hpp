// Reads the plots: a small strict XML parser, and what is drawn in the panels.
#pragma once

#include "ref.hpp"

namespace svg
{

using mc::fmt;

struct Node
{
    std::string name, text;
    std::map<std::string, std::string> attributes;
    std::vector<Node> children;

    std::string attribute (const std::string& n) const { auto i = attributes.find (n); return i == attributes.end() ? "" : i->second; }
    bool is (const char* element, const char* klass) const
    {
        if (name != element) return false;
        std::istringstream in (attribute ("class"));
        std::string word;
        while (in >> word) if (word == klass) return true;
        return false;
    }
};

class Parser
{
public:
    explicit Parser (const std::string& t): text (t) {}
    std::string error;
    Node root;

    bool parse()
    {
        skipMisc();
        if (! element (root, 0)) return false;
        skipMisc();
        return at == text.size() ? true : bad ("something after the document");
    }

private:
    const std::string& text;
    size_t at = 0;

    bool bad (const std::string& s) { if (error.empty()) error = s + fmt (" at byte %zu of %zu", at, text.size()); return false; }
    bool starts (const char* s) const { return text.compare (at, strlen (s), s) == 0; }
    static bool nameChar (char c) { return isalnum ((unsigned char) c) || c == '-' || c == '_' || c == ':' || c == '.'; }
    void space() { while (at < text.size() && isspace ((unsigned char) text[at])) ++at; }

    void skipMisc()
    {
        while (true)
        {
            space();
            if (starts ("<?")) { at = text.find ("?>", at); at = at == std::string::npos ? text.size() : at + 2; }
            else if (starts ("<!--")) { at = text.find ("-->", at); at = at == std::string::npos ? text.size() : at + 3; }
            else if (starts ("<!DOCTYPE")) { at = text.find ('>', at); at = at == std::string::npos ? text.size() : at + 1; }
            else return;
        }
    }

    bool entities (const std::string& s)
    {
        for (size_t i = s.find ('&'); i != std::string::npos; i = s.find ('&', i + 1))
        {
            const size_t end = s.find (';', i);
            if (end == std::string::npos || end - i > 10) return bad ("stray &");
        }
        return true;
    }

    bool element (Node& node, int depth)
    {
        if (depth > 50) return bad ("too deep");
        if (at >= text.size() || text[at] != '<') return bad ("no element");
        ++at;
        while (at < text.size() && nameChar (text[at])) node.name += text[at++];
        if (node.name.empty()) return bad ("no name");

        while (true)
        {
            space();
            if (at >= text.size()) return bad ("unfinished element");
            if (text[at] == '>') { ++at; break; }
            if (starts ("/>")) { at += 2; return true; }
            std::string name;
            while (at < text.size() && nameChar (text[at])) name += text[at++];
            if (name.empty() || at + 1 >= text.size() || text[at] != '=') return bad ("bad attribute");
            const char quote = text[++at];
            if (quote != '"' && quote != '\'') return bad ("attribute without quotes");
            const size_t end = text.find (quote, ++at);
            if (end == std::string::npos) return bad ("unfinished attribute");
            const std::string value = text.substr (at, end - at);
            if (value.find ('<') != std::string::npos || ! entities (value)) return bad ("bad attribute value");
            if (! node.attributes.emplace (name, value).second) return bad ("attribute " + name + " is given twice");
            at = end + 1;
        }

        while (true)
        {
            const size_t next = text.find ('<', at);
            if (next == std::string::npos) return bad ("unfinished element " + node.name);
            const std::string piece = text.substr (at, next - at);
            if (! entities (piece)) return false;
            node.text += piece;
            at = next;
            if (starts ("<!--")) { skipMisc(); continue; }
            if (starts ("<![CDATA["))
            {
                const size_t end = text.find ("]]>", at);
                if (end == std::string::npos) return bad ("unfinished CDATA");
                at = end + 3;
                continue;
            }
            if (starts ("</"))
            {
                at += 2;
                if (text.compare (at, node.name.size(), node.name) != 0) return bad ("wrong end of " + node.name);
                at += node.name.size();
                space();
                if (at >= text.size() || text[at] != '>') return bad ("bad end of " + node.name);
                ++at;
                return true;
            }
            node.children.emplace_back();
            if (! element (node.children.back(), depth + 1)) return false;
        }
    }
};

struct Point { double x, y; };
using Line = std::vector<Point>;
struct Label { double position, value; };

struct Panel
{
    double left = 0, top = 0;
    std::string title;
    std::vector<Line> lines;
    std::vector<Label> xLabels, yLabels;   // at the positions of their ticks
};

struct Plot
{
    bool ok = false;
    std::string error;
    std::vector<Panel> panels;   // from top to bottom
};

inline void collect (const Node& n, std::vector<const Node*>& lines, std::vector<const Node*>& texts, std::vector<const Node*>& ticks)
{
    if (n.is ("path", "svg-plot-line")) lines.push_back (&n);
    if (n.name == "text") texts.push_back (&n);
    if (n.is ("line", "svg-plot-tick")) ticks.push_back (&n);
    for (auto& c : n.children) collect (c, lines, texts, ticks);
}

inline bool number (const std::string& s, double& v)
{
    char* end = nullptr;
    v = strtod (s.c_str(), &end);
    return ! s.empty() && *end == 0 && std::isfinite (v);
}

inline Plot parse (const std::string& text)
{
    Plot plot;
    Parser parser (text);
    if (! parser.parse()) { plot.error = "not well formed: " + parser.error; return plot; }
    if (parser.root.name != "svg") { plot.error = "no svg"; return plot; }

    for (auto& group : parser.root.children)
    {
        Point origin { 0, 0 };
        if (group.name != "g" || sscanf (group.attribute ("transform").c_str(), "translate(%lf %lf)", &origin.x, &origin.y) != 2) continue;
        std::vector<const Node*> lines, texts, ticks;
        collect (group, lines, texts, ticks);
        Panel* panel = nullptr;
        for (auto& p : plot.panels) if (p.left == origin.x && p.top == origin.y) panel = &p;
        if (panel == nullptr) { plot.panels.emplace_back(); panel = &plot.panels.back(); panel->left = origin.x; panel->top = origin.y; }

        for (auto* n : lines)
        {
            std::istringstream in (n->attribute ("d"));
            std::string word;
            Line line;
            std::vector<double> numbers;
            bool first = true, closed = false;
            while (in >> word)
            {
                double v = 0;
                if (first && word == "M") { first = false; continue; }
                if (first && word.size() > 1 && word[0] == 'M') word.erase (0, 1);
                else if (word == "L") continue;
                else if (word == "Z") { closed = true; continue; }
                first = false;
                if (! number (word, v)) { plot.error = "bad path coordinate " + word; return plot; }
                numbers.push_back (v);
            }
            if (numbers.size() % 2 || closed) { plot.error = "bad path"; return plot; }
            for (size_t i = 0; i < numbers.size(); i += 2) line.push_back ({ numbers[i], numbers[i + 1] });
            panel->lines.push_back (line);
        }

        for (auto* n : texts)
        {
            if (n->is ("text", "svg-plot-title")) panel->title = n->text;
            if (! n->is ("text", "svg-plot-value")) continue;
            double value, x, y;
            if (! number (n->text, value) || ! number (n->attribute ("x"), x) || ! number (n->attribute ("y"), y)) { plot.error = "bad label " + n->text; return plot; }
            // The label belongs to the tick next to it
            const bool vertical = n->attribute ("style").find ("end") != std::string::npos;
            double best = 1e9;
            for (auto* t : ticks)
            {
                double x1, x2, y1, y2;
                if (! number (t->attribute ("x1"), x1) || ! number (t->attribute ("x2"), x2) || ! number (t->attribute ("y1"), y1) || ! number (t->attribute ("y2"), y2)) { plot.error = "bad tick"; return plot; }
                if ((y1 == y2) != vertical) continue;
                const double position = vertical ? y1 : x1, distance = std::abs (position - (vertical ? y : x));
                if (distance < std::abs (best - (vertical ? y : x))) best = position;
            }
            if (best < 1e8) (vertical ? panel->yLabels : panel->xLabels).push_back ({ best, value });
        }
    }

    std::sort (plot.panels.begin(), plot.panels.end(), [] (const Panel& a, const Panel& b) { return a.top < b.top; });
    plot.ok = true;
    return plot;
}

inline double distanceToSegment (Point p, Point a, Point b)
{
    const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
    double t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
    t = std::min (1.0, std::max (0.0, t));
    return std::hypot (a.x + t * dx - p.x, a.y + t * dy - p.y);
}

// Empty if the line shows those points (in order of x) and nothing else
inline std::string compare (const Line& line, const std::vector<Point>& points)
{
    const double tolerance = 0.05;
    if (line.empty()) return "has no points";
    size_t s = 0;
    for (size_t i = 1; i < line.size(); ++i) if (line[i].x < line[i - 1].x) return fmt ("runs backwards at x=%.9g", line[i].x);

    for (size_t i = 0; i < points.size(); ++i)
    {
        const auto p = points[i];
        while (s + 1 < line.size() && line[s + 1].x < p.x - tolerance) ++s;
        double best = std::hypot (line[s].x - p.x, line[s].y - p.y);
        for (size_t k = s; k + 1 < line.size() && line[k].x <= p.x + tolerance; ++k) best = std::min (best, distanceToSegment (p, line[k], line[k + 1]));
        if (best > tolerance) return fmt ("passes frame %zu (%.9g, %.9g) by %.3g", i, p.x, p.y, best);
    }

    size_t first = 0;
    for (auto& v : line)
    {
        while (first < points.size() && points[first].x < v.x - tolerance) ++first;
        double best = 1e9;
        for (size_t i = first; i < points.size() && points[i].x <= v.x + tolerance; ++i) best = std::min (best, std::hypot (points[i].x - v.x, points[i].y - v.y));
        if (best > tolerance) return fmt ("has a point (%.9g, %.9g) which is no sample", v.x, v.y);
    }

    return {};
}

// Empty if the plot shows this audio, else what is wrong
template <typename T>
std::string judge (const std::string& text, const ref::Audio<T>& input, const ref::Audio<T>& output, double rate)
{
    const auto plot = parse (text);
    if (! plot.ok) return plot.error;
    if (plot.panels.size() != 2) return fmt ("there are %zu panels", plot.panels.size());
    if (plot.panels[0].title.find ("nput") == std::string::npos || plot.panels[1].title.find ("utput") == std::string::npos) return "the panels are not input and output";
    double timeOrigin = 0, timeScale = 0;
    bool haveTime = false;

    for (int side = 0; side < 2; ++side)
    {
        const auto& panel = plot.panels[(size_t) side];
        const auto& audio = side == 0 ? input : output;
        const std::string name = side == 0 ? "input panel: " : "output panel: ";
        const size_t frames = audio[0].size();
        if (panel.lines.size() != audio.size()) return name + fmt ("%zu lines for %zu channels", panel.lines.size(), audio.size());
        for (auto& line : panel.lines) if (line.empty()) return name + "a line has no points";

        // The time axis: the ends of the lines are the first and the last sample
        const double duration = (double) (frames - 1) / rate;
        if (! haveTime)
        {
            timeOrigin = panel.lines[0].front().x;
            timeScale = frames > 1 ? (panel.lines[0].back().x - timeOrigin) / duration : 0;
            haveTime = true;
            if (frames > 1 && ! (timeScale > 0)) return name + "the time axis has no extent";
        }
        for (auto& label : panel.xLabels)
            if (std::abs (timeOrigin + label.value * timeScale - label.position) > 0.05 + 1e-5 * std::abs (label.value * timeScale) && frames > 1)
                return name + fmt ("time %g is labelled at %.9g instead of %.9g", label.value, label.position, timeOrigin + label.value * timeScale);

        // The value axis: by the labels of smallest and largest value
        Label low { 0, 1e300 }, high { 0, -1e300 };
        double peak = 0;
        for (auto& c : audio) for (auto x : c) peak = std::max (peak, std::abs ((double) x));
        for (auto& label : panel.yLabels) { if (label.value < low.value) low = label; if (label.value > high.value) high = label; }
        if (! (high.value > low.value) || ! (high.position < low.position)) return name + "the value axis has no labels";
        if (high.value < peak * (1 - 1e-5) || low.value > -peak * (1 - 1e-5)) return name + fmt ("the value axis from %g to %g does not cover %g", low.value, high.value, peak);
        // The labels are rounded, the axis is not
        const double roundedTo = 1e-5;
        if (peak > 0 && std::abs (high.value - peak) < roundedTo * peak) high.value = peak;
        if (peak > 0 && std::abs (low.value + peak) < roundedTo * peak) low.value = -peak;
        const double valueScale = (high.position - low.position) / (high.value - low.value);
        for (auto& label : panel.yLabels)
            if (std::abs (low.position + (label.value - low.value) * valueScale - label.position) > 0.05) return name + fmt ("value %g is labelled at %.9g", label.value, label.position);

        std::vector<bool> used (panel.lines.size(), false);
        std::vector<Point> points (frames);
        for (size_t c = 0; c < audio.size(); ++c)
        {
            for (size_t f = 0; f < frames; ++f)
                points[f] = { timeOrigin + (double) f / rate * timeScale, low.position + ((double) audio[c][f] - low.value) * valueScale };
            bool found = false;
            std::string why;
            for (size_t k = 0; k < panel.lines.size() && ! found; ++k)
            {
                const size_t i = (panel.lines.size() * 2 - 1 - c - k) % panel.lines.size();   // usually drawn from the last channel to the first
                if (used[i]) continue;
                const auto w = compare (panel.lines[i], points);
                if (w.empty()) { used[i] = true; found = true; }
                else if (why.empty()) why = w;
            }
            if (! found) return name + fmt ("no line for channel %zu, its line ", c) + why;
        }
    }

    return {};
}

}  // namespace svg
