// Stand-in for yaml-cpp: a tree whose leaves hold typed values, so that values read from "files" can be symbolic.
// Files are trees registered by the harness (YAML::file); what the code writes to a stream is kept in YAML::saved().
#pragma once
#include <iomanip>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
namespace YAML {
  class Exception : public std::runtime_error { public: explicit Exception(const std::string& m) : std::runtime_error(m) {} };
  class ParserException : public Exception { public: using Exception::Exception; };
  class BadFile : public Exception { public: using Exception::Exception; };
  class RepresentationException : public Exception { public: using Exception::Exception; };
  class BadConversion : public RepresentationException { public: using RepresentationException::RepresentationException; };
  class InvalidNode : public RepresentationException { public: using RepresentationException::RepresentationException; };
  struct Data {
    int kind = 0;   // 0 undefined, 1 number, 2 text, 3 matrix, 4 map, 5 list of matrices
    double num = 0; std::string text; Eigen::MatrixXd mat; std::vector<Eigen::MatrixXd> list; std::vector<std::pair<std::string, std::shared_ptr<Data>>> kids;
    std::shared_ptr<Data> find(const std::string& k) const { for (auto& p : kids) if (p.first == k) return p.second; return nullptr; }
  };
  class Node;
  template <class T> struct Conv;
  class Node {
   public:
    std::shared_ptr<Data> d; std::string key;
    Node() : d(std::make_shared<Data>()) {}
    explicit Node(std::shared_ptr<Data> p, const std::string& k) : d(p), key(k) {}
    bool IsDefined() const { return d->kind != 0; }
    explicit operator bool() const { return IsDefined(); }
    bool operator!() const { return !IsDefined(); }
    Node operator[](const std::string& k) { if (d->kind != 0 && d->kind != 4) throw BadConversion("not a map: " + key); auto p = d->find(k); if (!p) { p = std::make_shared<Data>(); d->kind = 4; d->kids.push_back({k, p}); } return Node(p, k); }
    const Node operator[](const std::string& k) const { auto p = d->find(k); return Node(p ? p : std::make_shared<Data>(), k); }
    Node operator[](const char* k) { return (*this)[std::string(k)]; }
    const Node operator[](const char* k) const { return (*this)[std::string(k)]; }
    Node& operator=(const Node& o) { if (key.empty()) { d = o.d; } else *d = *o.d; return *this; }
    Node(const Node&) = default;
    Node& operator=(double v) { d->kind = 1; d->num = v; return *this; }
    Node& operator=(int v) { d->kind = 1; d->num = v; return *this; }
    Node& operator=(bool v) { d->kind = 1; d->num = v; return *this; }
    Node& operator=(const std::string& v) { d->kind = 2; d->text = v; return *this; }
    Node& operator=(const char* v) { d->kind = 2; d->text = v; return *this; }
    template <class D> Node& operator=(const Eigen::MatrixBase<D>& m) { d->kind = 3; d->mat = m; return *this; }
    template <class T> Node& operator=(const std::vector<T>& l) { d->kind = 5; d->list.assign(l.begin(), l.end()); return *this; }
    template <class T> T as() const { if (!IsDefined()) throw InvalidNode("undefined value: " + key); return Conv<T>::get(*d, key); }
    template <class T> T as(const T& fallback) const { if (!IsDefined()) return fallback; return Conv<T>::get(*d, key); }
  };
  inline void need(const Data& d, int k, const std::string& key) { if (d.kind != k) throw BadConversion("bad conversion: " + key); }
  template <> struct Conv<double> { static double get(const Data& d, const std::string& k) { need(d, 1, k); return d.num; } };
  template <> struct Conv<int> { static int get(const Data& d, const std::string& k) { need(d, 1, k); return (int)d.num; } };
  template <> struct Conv<unsigned> { static unsigned get(const Data& d, const std::string& k) { need(d, 1, k); return (unsigned)d.num; } };
  template <> struct Conv<long> { static long get(const Data& d, const std::string& k) { need(d, 1, k); return (long)d.num; } };
  template <> struct Conv<unsigned long> { static unsigned long get(const Data& d, const std::string& k) { need(d, 1, k); return (unsigned long)d.num; } };
  template <> struct Conv<bool> { static bool get(const Data& d, const std::string& k) { need(d, 1, k); return d.num != 0; } };
  template <> struct Conv<std::string> { static std::string get(const Data& d, const std::string& k) { need(d, 2, k); return d.text; } };
  template <int R, int C, int O, int MR, int MC> struct Conv<Eigen::Matrix<double, R, C, O, MR, MC>> { static Eigen::Matrix<double, R, C, O, MR, MC> get(const Data& d, const std::string& k) { need(d, 3, k);
    if ((R > 0 && d.mat.rows() != R) || (C > 0 && d.mat.cols() != C)) throw BadConversion("wrong size: " + k); return d.mat; } };
  template <int R, int C, int O, int MR, int MC> struct Conv<Eigen::Matrix<int, R, C, O, MR, MC>> { static Eigen::Matrix<int, R, C, O, MR, MC> get(const Data& d, const std::string& k) { need(d, 3, k);
    if ((R > 0 && d.mat.rows() != R) || (C > 0 && d.mat.cols() != C)) throw BadConversion("wrong size: " + k); Eigen::Matrix<int, R, C, O, MR, MC> m(d.mat.rows(), d.mat.cols()); for (int i = 0; i < d.mat.rows(); i++) for (int j = 0; j < d.mat.cols(); j++) m(i, j) = (int)d.mat(i, j); return m; } };
  template <> struct Conv<Eigen::Quaternion<double>> { static Eigen::Quaternion<double> get(const Data& d, const std::string& k) { need(d, 3, k); if (d.mat.size() != 4) throw BadConversion("wrong size: " + k); return Eigen::Quaternion<double>(d.mat(0), d.mat(1), d.mat(2), d.mat(3)); } };
  template <class T, class A> struct Conv<std::vector<T, A>> { static std::vector<T, A> get(const Data& d, const std::string& k) { need(d, 5, k); std::vector<T, A> r; for (auto& m : d.list) r.push_back(T(m)); return r; } };
  inline std::map<std::string, Node>& files() { static std::map<std::string, Node> f; return f; }
  inline Node& file(const std::string& n) { return files()[n]; }
  inline std::vector<Node>& saved() { static std::vector<Node> s; return s; }
  inline Node LoadFile(const std::string& n) { auto i = files().find(n); if (i == files().end()) throw BadFile("bad file: " + n); return i->second; }
  inline std::ostream& operator<<(std::ostream& o, const Node& n) { saved().push_back(n); return o; }
}
