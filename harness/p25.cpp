// P25: logger output against a reference formatter, and concurrent logging.
#include "lmgen.h"
#include <lm/logger.h>
#include <thread>
#include <regex>
#include <iostream>
using namespace lmgen;
using lm::log::LogLevel;

namespace {
struct Capture { std::stringbuf b; std::streambuf* old; Capture() { old = std::cout.rdbuf(&b); } ~Capture() { std::cout.rdbuf(old); } std::string str() { return b.str(); } };
struct Line { char lv; std::string where; std::string body; bool ok = true; std::string raw; };
std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; size_t i = 0; while (i < s.size()) { const size_t j = s.find('\n', i); if (j == std::string::npos) { r.push_back(s.substr(i) + "<no end of line>"); break; } r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }
// "[I|0.123|line@file ] body" or "[I|0.123] body"
Line parse(const std::string& s, bool show) {
    Line l; l.raw = s; size_t i = 0; const auto eat = [&](const std::string& t) { if (s.compare(i, t.size(), t)) l.ok = false; i += t.size(); };
    eat("["); l.lv = i < s.size() ? s[i] : 0; i++; eat("|"); size_t j = i; while (j < s.size() && isdigit(s[j])) j++; if (j == i) l.ok = false; i = j; eat("."); for (int k = 0; k < 3; k++, i++) if (i >= s.size() || !isdigit(s[i])) l.ok = false;
    if (show) { eat("|"); if (i + 10 > s.size()) { l.ok = false; return l; } l.where = s.substr(i, 10); i += 10; }
    eat("] "); if (i <= s.size()) l.body = s.substr(i); else l.ok = false; return l;
}
char letter(LogLevel l) { return l == LogLevel::Debug ? 'D' : l == LogLevel::Info ? 'I' : l == LogLevel::Warn ? 'W' : 'E'; }
const std::vector<LogLevel> LV = { LogLevel::Debug, LogLevel::Info, LogLevel::Warn, LogLevel::Err };

std::string gen_msg(Ctx& c) {
    std::string s; const int n = c.weighted({ 1, 8, 2 }) == 0 ? 0 : c.in(1, c.coin() ? 12 : 90);
    for (int i = 0; i < n; i++) { static const std::string al = "abcXYZ019 ._-[]|{}%\\\"':;/\t"; s += c.chance(.06) ? '\n' : al[c.raw(al.size() - 1)]; }
    if (c.chance(.1)) s += "\xc3\xa9\xe2\x82\xac"; 
    return s;
}
std::vector<std::string> lines_of(const std::string& m) { std::vector<std::string> r; if (m.empty()) { r.push_back(""); return r; } size_t i = 0; while (i < m.size()) { const size_t j = m.find('\n', i); if (j == std::string::npos) { r.push_back(m.substr(i)); break; } r.push_back(m.substr(i, j - i)); i = j + 1; } return r; }

// What a terminal shows: a carriage return goes back to the start of the line, later text replaces what was there.
std::string screen(const std::string& s) {
    std::string out, line; size_t col = 0;
    for (const char ch : s) if (ch == '\n') { out += line + "\n"; line.clear(); col = 0; } else if (ch == '\r') col = 0; else { if (col < line.size()) line[col] = ch; else line += ch; col++; }
    return out + line;
}
std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

void history(Ctx& c, bool show) {
    struct E { char lv; std::string where, body; bool progress = false; }; std::vector<E> want; int sev = 0, ind = 0; std::string got;
    {
        Capture cap; lm::log::ScopedInit si("default", { {"color", c.coin()}, {"show_line_and_filename", show} });
        const int n = c.in(1, 30);
        std::vector<std::unique_ptr<lm::log::LogIndenter>> scopes;
        for (int k = 0; k < n; k++) switch (c.weighted({ 20, 4, 4, 4, 3, 4 })) {
            case 0: {
                const auto lv = c.pick(LV); const int s = c.coin() ? int(lv) : c.in(-120, 120); const std::string m = gen_msg(c), file = c.pick(std::vector<std::string>{ "/a/b/file.cpp", "x.cpp", "averyverylongname.cc", "noext", "/d.d/e" }); const int line = c.in(1, 99999);
                lm::log::log(lv, s, file.c_str(), line, m.c_str());
                std::string stem = file.substr(file.rfind('/') == std::string::npos ? 0 : file.rfind('/') + 1); if (stem.rfind('.') != std::string::npos && stem.rfind('.') > 0) stem = stem.substr(0, stem.rfind('.'));
                std::string where = (std::to_string(line) + "@" + stem).substr(0, 10); where.resize(10, ' ');
                c.note("log ", letter(lv), " ", s, " '", m, "'\n");
                if (s >= sev) for (auto& l : lines_of(m)) want.push_back({ letter(lv), where, (ind > 0 ? std::string(2 * ind, '.') + " " : "") + l });
                break; }
            case 1: sev = c.coin() ? int(c.pick(LV)) : c.in(-120, 40); c.note("severity ", sev, "\n"); if (c.coin()) lm::log::set_severity(sev); else lm::log::set_severity(LogLevel(sev)); break;
            case 2: { const int d = c.in(-3, 3); c.note("indent ", d, "\n"); lm::log::update_indentation(d); ind = std::max(0, ind + d); break; }
            case 3: scopes.push_back(std::make_unique<lm::log::LogIndenter>()); ind++; c.note("scope\n"); break;
            case 4: { // progress messages replace one another, the last one ends the line
                const int m = c.in(0, 4), sv = c.chance(.8) ? 100 : c.in(-120, 120);
                for (int j = 0; j <= m; j++) {
                    if (c.chance(.15)) { const int d = c.in(-3, 3); c.note("indent ", d, "\n"); lm::log::update_indentation(d); ind = std::max(0, ind + d); }
                    const std::string pre = ind > 0 ? std::string(2 * ind, '.') + " " : "";
                    const bool end = j == m; std::string t = gen_msg(c); for (char& ch : t) if (ch == '\n') ch = '+';
                    lm::log::log(end ? LogLevel::ProgressEnd : LogLevel::Progress, sv, "p.cpp", 7, t.c_str()); c.note(end ? "progress end " : "progress ", sv, " '", t, "'\n");
                    if (sv < sev) continue;
                    if (end) { want.push_back({ 'I', "7@p       ", pre + t, true }); break; }
                    const std::string all = screen(cap.str()), cur = all.substr(all.rfind('\n') == std::string::npos ? 0 : all.rfind('\n') + 1); const Line l = parse(cur, show);
                    c.check(l.ok && l.lv == 'I' && rstrip(l.body) == rstrip(pre + t), "progress", [&] { return "the line shows '" + cur + "' after the progress message '" + pre + t + "'"; });
                }
                break; }
            default: if (!scopes.empty()) { scopes.pop_back(); ind = std::max(0, ind - 1); c.note("end scope\n"); }
                else { // formatted messages
                    const int v = c.in(-999, 999); const double d = c.in(0, 100) / 4.; LM_WARN("value {} of {} {:.2f}", v, std::string("x{}"), d); c.note("format\n");
                    if (20 >= sev) { char b[80]; snprintf(b, 80, "value %d of x{} %.2f", v, d); want.push_back({ 'W', "", (ind > 0 ? std::string(2 * ind, '.') + " " : "") + b }); } }
        }
        got = cap.str(); scopes.clear();
    }
    const auto ls = split(screen(got));
    for (size_t i = 0; i < std::max(ls.size(), want.size()); i++) {
        c.check(i < ls.size() && i < want.size(), "line-count", [&] { return std::to_string(ls.size()) + " lines written, " + std::to_string(want.size()) + " expected; first surplus or missing: " + (i < ls.size() ? ls[i] : want[i].body); });
        const Line l = parse(ls[i], show);
        c.check(l.ok, "line-format", [&] { return "malformed line '" + ls[i] + "'"; });
        c.check(l.lv == want[i].lv, "level", [&] { return "line '" + ls[i] + "' expected level " + std::string(1, want[i].lv); });
        c.check(want[i].progress ? rstrip(l.body) == rstrip(want[i].body) : l.body == want[i].body, want[i].progress ? "progress-end" : "body", [&] { return "line '" + ls[i] + "' expected body '" + want[i].body + "'"; });
        if (show && !want[i].where.empty()) c.check(l.where == want[i].where, "where", [&] { return "line '" + ls[i] + "' expected position '" + want[i].where + "'"; });
    }
    c.nontrivial = want.size() >= 2; c.label("history");
}
void threads(Ctx& c) {
    const int T = c.in(2, 8), K = c.in(5, 120), multi = c.in(1, 3); std::string got; const bool ind = c.coin();
    c.note(T, " threads x ", K, " messages of ", multi, " lines", ind ? " with indentation changes" : "");
    {
        Capture cap; lm::log::ScopedInit si("default", { {"color", false}, {"show_line_and_filename", true} }); lm::log::set_severity(0);
        std::atomic<int> ready{ 0 }; std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready < T) {} for (int k = 0; k < K; k++) { std::string m; for (int j = 0; j < multi; j++) m += "<" + std::to_string(t) + "/" + std::to_string(k) + "/" + std::to_string(j) + ">" + (j + 1 < multi ? "\n" : ""); if (ind && k % 5 == 0) lm::log::update_indentation(1); lm::log::log(LogLevel::Info, k % 3 == 2 ? -1 : 10, "f.cpp", 1, m.c_str()); if (ind && k % 5 == 0) lm::log::update_indentation(-1); } });
        for (auto& t : th) t.join(); got = cap.str();
    }
    const auto ls = split(got); std::vector<int> next(T, 0), sub(T, 0); int open = -1; size_t cnt = 0;
    for (auto& s : ls) {
        const Line l = parse(s, true); c.check(l.ok && l.lv == 'I', "mt-format", [&] { return "malformed line '" + s + "'"; });
        int t, k, j, e = 0; std::string b = l.body; size_t d = b.find_first_not_of('.'); if (ind && d != std::string::npos && d > 0 && b[d] == ' ' && d % 2 == 0) b = b.substr(d + 1);
        c.check(sscanf(b.c_str(), "<%d/%d/%d>%n", &t, &k, &j, &e) == 3 && e == int(b.size()) && t >= 0 && t < T, "mt-body", [&] { return "damaged message '" + s + "'"; });
        if (t < 0 || t >= T) return;
        if (next[t] % 3 == 2) next[t]++;
        c.check(k == next[t] && j == sub[t], "mt-order", [&] { return "thread " + std::to_string(t) + ": got message " + std::to_string(k) + " line " + std::to_string(j) + ", expected message " + std::to_string(next[t]) + " line " + std::to_string(sub[t]); });
        c.check(open == -1 || open == t, "mt-interleaved", [&] { return "lines of messages of two threads are interleaved at '" + s + "'"; });
        if (++sub[t] == multi) { sub[t] = 0; next[t]++; open = -1; } else open = t;
        cnt++;
    }
    size_t per = 0; for (int k = 0; k < K; k++) per += k % 3 != 2;
    c.check(cnt == per * multi * T, "mt-count", [&] { return std::to_string(cnt) + " lines written, " + std::to_string(per * multi * T) + " expected"; });
    c.nontrivial = true; c.label("threads");
}
void run(Ctx& c) { if (c.weighted({ 12, 1 }) == 0) history(c, c.coin()); else threads(c); }
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P25";
    p.rule = "case = a history of up to 30 logger calls (messages of any level and severity, empty, multi-line, non-ASCII, with formatting; severity changes; indentation changes and scopes; progress lines) compared line by line with a reference formatter, or 2-8 threads logging concurrently. Non-trivial: at least two expected lines.";
    p.assumptions = { "output is captured from std::cout; it is not a terminal, so no color codes are expected", "progress messages are judged by what a terminal of unlimited width shows; other messages are not mixed into a running progress line" };
    p.run = run; p.worker_init = [] { lm::log::shutdown(); }; p.workers = 6; p.quick_cases = 400000; p.thorough_cases = 10000000; p.quick_s = 20; p.thorough_s = 240;
    return pbt::main(argc, argv, p);
}
