// Stand-in for the one FleCSI header the tree topology includes.  FleCSI is not
// installed here; tree_topology only derives from this empty base class.
#pragma once
namespace flecsi {
namespace data {
struct data_client_t {
  virtual ~data_client_t() {}
};
} // namespace data
} // namespace flecsi
