// In-memory stand-in for HighFive (its submodule is empty in this checkout): files, groups, datasets, hyperslab writes.
// Bounds are checked as the HDF5 library does: a selection outside the dataset raises DataSetException.
#ifndef VERIF_HIGHFIVE_MEM
#define VERIF_HIGHFIVE_MEM
#include <map>
#include <string>
#include <vector>
#include <cmath>
#include <stdexcept>
typedef unsigned long long hsize_t;
#define H5E_DEFAULT 0
inline int H5Eset_auto(int, void *, void *) { return 0; }
namespace HighFive {
  struct Exception : std::runtime_error { Exception(const std::string &s) : std::runtime_error(s) {} };
  struct FileException : Exception { using Exception::Exception; };
  struct GroupException : Exception { using Exception::Exception; };
  struct DataSetException : Exception { using Exception::Exception; };
  struct DataSpace
  {
    static const size_t UNLIMITED = (size_t)-1;
    std::vector<size_t> dims, max;
    DataSpace() {}
    DataSpace(const std::vector<size_t> &d) : dims(d), max(d) {}
    DataSpace(const std::vector<size_t> &d, const std::vector<size_t> &m) : dims(d), max(m) {}
    template<class T> static DataSpace From(const T &) { return DataSpace(); }
  };
  struct Store { std::vector<size_t> dims, max; std::map<std::vector<size_t>, double> cells; std::map<std::vector<size_t>, int> writes; };
  template<class T> struct AtomicType {};
  struct Chunking { Chunking(const std::vector<hsize_t> &) {} };
  struct DataSetCreateProps { template<class T> void add(const T &) {} };
  struct Selection
  {
    Store *s; std::vector<size_t> off, cnt;
    void put(std::vector<size_t> rel, double v)
    {
      std::vector<size_t> a; size_t n = 0;
      for (size_t i = 0; i < off.size(); ++i)
      {
        size_t r = rel.size() == off.size() ? rel[i] : 0;
        if (r >= cnt[i]) throw DataSetException("data larger than the selection");
        a.push_back(off[i] + r);
        if (a[i] >= s->dims[i]) throw DataSetException("selection outside of the dataset");
      }
      s->cells[a] = v; ++s->writes[a];
    }
    void check(const std::vector<size_t> &d) { if (d != cnt) throw DataSetException("data do not match the selection"); }
    void write(double v) { for (size_t c : cnt) if (c != 1) throw DataSetException("scalar written to a larger selection"); put({}, v); }
    void write(const std::vector<std::vector<double>> &v)
    { check({v.size(), v[0].size()}); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) put({i, j}, v[i][j]); }
    void write(const std::vector<std::vector<std::vector<double>>> &v)
    { check({v.size(), v[0].size(), v[0][0].size()}); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) for (size_t k = 0; k < v[i][j].size(); ++k) put({i, j, k}, v[i][j][k]); }
  };
  struct DataSet
  {
    Store *s;
    std::vector<size_t> getDimensions() const { return s->dims; }
    void resize(const std::vector<size_t> &d)
    {
      if (d.size() != s->dims.size()) throw DataSetException("resize: number of dimensions");
      for (size_t i = 0; i < d.size(); ++i) if (d[i] > s->max[i]) throw DataSetException("resize: above the maximum");
      s->dims = d;
    }
    Selection select(const std::vector<size_t> &o, const std::vector<size_t> &c)
    {
      if (o.size() != s->dims.size() || c.size() != s->dims.size()) throw DataSetException("selection has a wrong number of dimensions");
      for (size_t i = 0; i < o.size(); ++i) if (o[i] + c[i] > s->dims[i]) throw DataSetException("selection outside of the dataset");
      return {s, o, c};
    }
  };
  struct Attribute { template<class T> void write(const T &) {} };
  struct Group { template<class T> Attribute createAttribute(const std::string &, const DataSpace &) { return Attribute(); } };
  class File
  {
  public:
    enum { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Create = 8 };
    std::map<std::string, Store> sets;
    File() {}
    File(const std::string &, int = 0) {}
    virtual ~File() {}
    static std::string norm(const std::string &p) { return p.empty() || p[0] != '/' ? '/' + p : p; }
    DataSet getDataSet(const std::string &p) { auto i = sets.find(norm(p)); if (i == sets.end()) throw DataSetException("no dataset " + p); return {&i->second}; }
    Group createGroup(const std::string &) { return Group(); }
    Group getGroup(const std::string &) { return Group(); }
    template<class T> DataSet createDataSet(const std::string &p, const DataSpace &d, const T &, const DataSetCreateProps & = DataSetCreateProps())
    { if (sets.count(norm(p))) throw DataSetException("dataset exists " + p); Store &s = sets[norm(p)]; s.dims = d.dims; s.max = d.max; return {&s}; }
  };
}
#endif
