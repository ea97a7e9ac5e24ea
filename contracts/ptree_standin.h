// Assumed contract of boost::property_tree (a dependency, not part of this repository), used by C30 only: a tree is a
// table path -> value; read_info delivers the table of the named file; get<T> returns the value stored at exactly this
// path, throws if there is none (or returns the default given), and throws if the value is not of the type asked for.
#pragma once
#define BOOST_PROPERTY_TREE_PTREE_HPP_INCLUDED
#define BOOST_PROPERTY_TREE_INFO_PARSER_HPP_INCLUDED
#define BOOST_STRING_ALGO_HPP
#define BOOST_PROPERTY_TREE_THROW(e) throw e
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/optional.hpp>
namespace ctv_cfg {
struct Entry
{
    std::string path;
    int kind;  // 0 real, 1 integer, 2 text
    double r;
    long i;
    std::string s;
};
struct File
{
    std::string name;
    std::vector<Entry> e;
};
static std::vector<File>& files()
{
    static std::vector<File>* f = new std::vector<File>();
    return *f;
}
static void put(File& f, const std::string& p, double v) { f.e.push_back(Entry{p, 0, v, 0, ""}); }
static void put(File& f, const std::string& p, long v) { f.e.push_back(Entry{p, 1, 0, v, ""}); }
static void put(File& f, const std::string& p, const char* v) { f.e.push_back(Entry{p, 2, 0, 0, v}); }
}
namespace boost {
namespace algorithm {
inline void to_lower(std::string& s)
{
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] >= 'A' && s[i] <= 'Z') s[i] = s[i] - 'A' + 'a';
}
}
namespace property_tree {
struct ptree_error : public std::runtime_error { ptree_error(const std::string& w) : std::runtime_error(w) {} };
struct ptree_bad_path : public ptree_error { ptree_bad_path(const std::string& w) : ptree_error(w) {} };
struct ptree_bad_data : public ptree_error { ptree_bad_data(const std::string& w) : ptree_error(w) {} };
namespace info_parser {
struct info_parser_error : public ptree_error
{
    info_parser_error(const std::string& m, const std::string&, unsigned long) : ptree_error(m) {}
};
}
template <class T>
struct conv { static T from(const ctv_cfg::Entry& e) { if (e.kind != 1) throw ptree_bad_data("type"); return (T)e.i; } };
template <>
struct conv<bool> { static bool from(const ctv_cfg::Entry& e) { if (e.kind != 1 || (e.i != 0 && e.i != 1)) throw ptree_bad_data("type"); return e.i != 0; } };
template <>
struct conv<double> { static double from(const ctv_cfg::Entry& e) { if (e.kind == 2) throw ptree_bad_data("type"); return e.kind == 0 ? e.r : (double)e.i; } };
template <>
struct conv<std::string> { static std::string from(const ctv_cfg::Entry& e) { if (e.kind != 2) throw ptree_bad_data("type"); return e.s; } };
class ptree
{
    const ctv_cfg::File* f = nullptr;
    ctv_cfg::Entry here;
    const ctv_cfg::Entry* at(std::string p) const
    {
        if (!p.empty() && p.back() == '.') p.erase(p.size() - 1, 1);
        if (f)
            for (size_t i = 0; i < f->e.size(); i++)
                if (f->e[i].path == p) return &f->e[i];
        return nullptr;
    }
    // does a child of this name exist at the top level?
    bool top(const std::string& n) const
    {
        if (f)
            for (size_t i = 0; i < f->e.size(); i++)
            {
                const std::string& p = f->e[i].path;
                if (p == n || (p.size() > n.size() && p[n.size()] == '.' && p.compare(0, n.size(), n) == 0)) return true;
            }
        return false;
    }

public:
    typedef int assoc_iterator;
    void load(const ctv_cfg::File& x) { f = &x; }
    template <class T>
    T get(const std::string& p) const
    {
        const ctv_cfg::Entry* e = at(p);
        if (!e) throw ptree_bad_path("No such node");
        return conv<T>::from(*e);
    }
    template <class T>
    T get(const std::string& p, const T& d) const
    {
        const ctv_cfg::Entry* e = at(p);
        if (!e) return d;
        try { return conv<T>::from(*e); } catch (const ptree_bad_data&) { return d; }
    }
    template <class T>
    T get_value() const { return conv<T>::from(here); }
    boost::optional<const ptree&> get_child_optional(const std::string& p) const
    {
        const ctv_cfg::Entry* e = at(p);
        if (!e) return boost::optional<const ptree&>();
        ptree* c = new ptree();
        c->here = *e;
        return boost::optional<const ptree&>(*c);
    }
    int find(const std::string& n) const { return top(n) ? 1 : 0; }
    int not_found() const { return 0; }
};
inline void read_info(const std::string& name, ptree& pt)
{
    std::vector<ctv_cfg::File>& fs = ctv_cfg::files();
    for (size_t i = 0; i < fs.size(); i++)
        if (fs[i].name == name)
        {
            pt.load(fs[i]);
            return;
        }
    throw info_parser::info_parser_error("cannot open file", name, 0);
}
}
}
