// S01: the copyright script stamps C++ sources once and touches nothing else.
// The script under test is copied into a scratch directory and runs there as an unprivileged user, on generated source trees.
#include "pbt.hpp"
#include <filesystem>
#include <fstream>
#include <grp.h>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
namespace fs = std::filesystem;

static const uid_t NOBODY = 65534;
struct Scratch {
    fs::path dir;
    Scratch()
    {
        char t[] = "/tmp/pbt_script_XXXXXX";
        if (!mkdtemp(t)) throw std::runtime_error("HARNESS no scratch directory");
        dir = t;
    }
    ~Scratch()
    {
        std::error_code e;
        fs::remove_all(dir, e);
    }
};
struct Entry {
    std::string text;
    int mode;
    bool operator==(const Entry& o) const { return text == o.text && mode == o.mode; }
};
using Tree = std::map<std::string, Entry>;

static Tree read_tree(const fs::path& d)
{
    Tree t;
    for (auto& e : fs::recursive_directory_iterator(d)) {
        struct stat st;
        if (lstat(e.path().c_str(), &st)) continue;
        std::string name = fs::relative(e.path(), d).string();
        if (S_ISDIR(st.st_mode)) {
            t[name + "/"] = {"", 0};
            continue;
        }
        std::ifstream f(e.path(), std::ios::binary);
        std::stringstream b;
        b << f.rdbuf();
        t[name] = {b.str(), (int)(st.st_mode & 07777)};
    }
    return t;
}
static bool stamped(const std::string& s)
{
    size_t p = 0;
    for (int i = 0; i < 10 && p < s.size(); i++) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) e = s.size();
        if (s.substr(p, e - p).find("Copyright") != std::string::npos) return true;
        p = e + 1;
    }
    return false;
}
static std::string shown(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch : s.substr(0, 300))
        if (ch == '\n')
            r += "\\n";
        else if (ch == '\r')
            r += "\\r";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        } else
            r += (char)ch;
    return r + "\"";
}

static std::string word(Src& s)
{
    switch (s.weighted({8, 2, 1, 1, 1, 1, 1, 1})) {
    case 1: return "// comment \\ with back\\slashes";
    case 2: return "copyright in small letters";
    case 3: return "caf\xc3\xa9 \xe2\x82\xac";
    case 4: return "\tint x{};  ";
    case 5: return "#include \"a.hpp\"";
    case 6: return "%s {} $x `y`";
    case 7: return "x\xe9y"; // not UTF-8
    }
    return "";
}
static std::string content(Src& s)
{
    int n = s.weighted({3, 3, 3, 2, 2, 1}) * 4 + (int)s.draw(4);
    if (s.chance(1, 10)) n = 0;
    bool crlf = s.chance(1, 6);
    int mark = s.chance(2, 5) ? (int)s.draw(16) : -1;
    std::string r;
    for (int i = 0; i < n; i++) {
        std::string l = word(s);
        if (i == mark) l = s.flip() ? "Copyright (c) 2020. Someone" : "   \"a Copyright notice\";";
        r += l;
        if (i + 1 < n || !s.chance(1, 4)) r += crlf ? "\r\n" : "\n";
    }
    return r;
}

PROP(S01)
{
    Src& s = c.s;
    const char* repo = getenv("VERIF_REPO");
    Scratch w;
    fs::path root = w.dir / "tree", tmp = w.dir / "tmp";
    fs::create_directory(root);
    fs::create_directory(tmp);
    fs::create_directory(root / "src");
    fs::copy(fs::path(repo ? repo : "/repo") / "scripts", w.dir / "scripts", fs::copy_options::recursive);
    // the notice
    std::string notice;
    int nl = 1 + s.weighted({4, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1});
    int where = s.chance(1, 8) ? (int)s.draw(nl) : 0;
    for (int i = 0; i < nl; i++) {
        std::string l = i == where ? "Copyright (c) 2022. Triad" : s.chance(1, 5) ? "" : s.chance(1, 4) ? "under a \\ license % {}" : "This program was produced";
        notice += l + "\n";
    }
    std::string header;
    {
        std::istringstream f(notice);
        for (std::string l; std::getline(f, l);) header += "// " + l + "\n";
        header += "\n\n";
    }
    std::ofstream(root / "COPYRIGHT") << notice;
    // the sources
    std::vector<std::string> dirs = {"src"};
    int nd = (int)s.draw(4);
    static const char* dn[] = {"cuda", "a", "deep/er", "x.y", "app", "lib.cpp"};
    for (int i = 0; i < nd; i++) dirs.push_back(dirs[s.draw(dirs.size())] + "/" + dn[s.weighted({5, 4, 3, 2, 1, 1})]);
    if (s.chance(1, 4)) dirs.push_back("test");
    if (s.chance(1, 6)) dirs.push_back("");
    static const char* fn[] = {"a.cpp", "b.hpp", "c.t.cpp", "d.tpp", "e.ipp", "f.f", "g.h", "h.cc", "i.cpp~", "j k.cpp", "l.CPP", ".m.hpp", "CMakeLists.txt", "n.cppx", "opp"};
    int nf = (int)s.range(1, 9), eligible = 0;
    Tree want;
    for (int i = 0; i < nf; i++) {
        std::string d = dirs[s.draw(dirs.size())];
        std::string name = fn[s.weighted({6, 5, 3, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1})];
        fs::path p = d.empty() ? fs::path(name) : fs::path(d) / name;
        if (fs::is_directory(root / p)) continue;
        bool clash = false; // a part of the way is a file already
        for (fs::path q = p.parent_path(); !q.empty(); q = q.parent_path()) clash |= fs::exists(root / q) && !fs::is_directory(root / q);
        if (clash) continue;
        fs::create_directories((root / p).parent_path());
        std::string text = content(s);
        static const int md[] = {0644, 0600, 0755, 0664, 0640};
        int mode = md[s.weighted({6, 1, 2, 2, 1})];
        std::ofstream(root / p, std::ios::binary | std::ios::trunc) << text;
        chmod((root / p).c_str(), mode);
        std::string n = p.string();
        bool pp = n.size() >= 2 && n.substr(n.size() - 2) == "pp" && n.rfind("src/", 0) == 0;
        if (pp && !stamped(text)) eligible++;
        c.note(n, " ", shown(text), "; ");
    }
    for (auto& e : fs::recursive_directory_iterator(w.dir))
        if (chown(e.path().c_str(), NOBODY, NOBODY)) {}
    if (chown(w.dir.c_str(), NOBODY, NOBODY)) {}
    c.note("notice ", shown(notice));
    int runs = 1 + s.weighted({2, 3, 1});
    bool here = s.chance(1, 4);
    c.note(" run ", runs, " times", here ? " without --root" : "");
    if (eligible) c.nontrivial = true;
    if (eligible > 1) c.label("several files to stamp");
    if (runs > 1) c.label("run again");
    for (int k = 0; k < runs; k++) {
        Tree before = read_tree(root), want;
        for (auto& [n, e] : before) {
            Entry x = e;
            bool pp = n.size() >= 2 && n.substr(n.size() - 2) == "pp" && n.rfind("src/", 0) == 0;
            if (pp && !stamped(e.text)) x.text = header + e.text, c.label("stamped");
            if (pp && stamped(e.text)) c.label("has a notice already");
            if (!pp && n.back() != '/') c.label("other files");
            want[n] = x;
        }
        int pfd[2];
        if (pipe(pfd)) throw std::runtime_error("HARNESS pipe");
        pid_t pid = fork();
        if (pid == 0) {
            dup2(pfd[1], 1);
            dup2(pfd[1], 2);
            close(pfd[0]);
            if (geteuid() == 0) {
                if (setgroups(0, nullptr)) {}
                if (setgid(NOBODY)) {}
                if (setuid(NOBODY)) {}
            }
            umask(022);
            setenv("TMPDIR", tmp.c_str(), 1);
            setenv("HOME", tmp.c_str(), 1);
            setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            if (chdir(here ? root.c_str() : w.dir.c_str())) _exit(99);
            std::string script = (w.dir / "scripts" / "add_copyright.py").string(), r = root.string();
            if (here)
                execlp("python3", "python3", script.c_str(), (char*)0);
            else
                execlp("python3", "python3", script.c_str(), "--root", r.c_str(), (char*)0);
            _exit(99);
        }
        close(pfd[1]);
        std::string out;
        char buf[4096];
        for (ssize_t m; (m = read(pfd[0], buf, sizeof buf)) > 0;) out.append(buf, m);
        close(pfd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) throw std::runtime_error("HARNESS cannot start python3");
        while (!out.empty() && out.back() == '\n') out.pop_back();
        if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("run ", k + 1, " of the script ends with an error: ", shown(out.substr(out.rfind('\n') + 1)));
        Tree now = read_tree(root);
        for (auto& [n, e] : want) {
            auto p = now.find(n);
            if (p == now.end()) fail("run ", k + 1, ": ", n, " is gone");
            if (p->second.text != e.text) fail("run ", k + 1, ": ", n, " holds ", shown(p->second.text), ", expected ", shown(e.text));
            if (p->second.mode != e.mode) fail("run ", k + 1, ": permissions of ", n, " are ", std::to_string(p->second.mode), ", before ", std::to_string(e.mode));
        }
        for (auto& [n, e] : now)
            if (!want.count(n)) fail("run ", k + 1, ": ", n, " is new");
        for (auto& e : fs::directory_iterator(tmp)) fail("run ", k + 1, ": ", e.path().filename().string().substr(0, 3), "... is left in the directory of temporary files");
    }
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
