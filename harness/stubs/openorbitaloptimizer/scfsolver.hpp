// Stand-in for OpenOrbitalOptimizer's SCF solver (not present offline): it
// records what the drivers hand over and lets the harness play the solver.
#pragma once
#include <iomanip>
#include <Eigen/Dense>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace OpenOrbitalOptimizer {
template <typename T> using OrbitalBlock = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <typename T> using Orbitals = std::vector<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>;
template <typename T> using OrbitalOccupations = std::vector<Eigen::Matrix<T, Eigen::Dynamic, 1>>;
template <typename T> using FockMatrix = std::vector<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>;
using IndexVector = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
template <typename T, typename B> using DensityMatrix = std::pair<Orbitals<T>, OrbitalOccupations<B>>;
template <typename T, typename B> using FockBuilderReturn = std::pair<B, FockMatrix<T>>;
template <typename T, typename B> using FockBuilder = std::function<FockBuilderReturn<T, B>(const DensityMatrix<T, B> &)>;
template <typename T, typename B> using BatchedFockBuilder = std::function<std::vector<FockBuilderReturn<T, B>>(const std::vector<DensityMatrix<T, B>> &)>;
template <typename T, typename B> class SCFSolver;
inline std::function<void(SCFSolver<double, double> &)> hook;  // set by the harness
template <typename T, typename B> class SCFSolver {
 public:
  typedef Eigen::Matrix<B, Eigen::Dynamic, 1> V;
  IndexVector nblocks; V maxocc, npart, fixed; FockBuilder<T, B> builder; BatchedFockBuilder<T, B> batched; std::vector<std::string> desc;
  FockMatrix<T> guess; Orbitals<T> orbs, orbs0; OrbitalOccupations<B> occs, occs0; std::map<std::string, std::string> strings; std::map<std::string, double> numbers;
  SCFSolver(const IndexVector &n, const V &m, const V &p, const FockBuilder<T, B> &f, const std::vector<std::string> &d) : nblocks(n), maxocc(m), npart(p), builder(f), desc(d) {}
  void set(const std::string &k, const std::string &v) { strings[k] = v; }
  void set(const std::string &k, const char *v) { strings[k] = v; }
  void set(const std::string &k, int v) { numbers[k] = v; }
  void set(const std::string &k, double v) { numbers[k] = v; }
  void set_batched_fock_builder(const BatchedFockBuilder<T, B> &f) { batched = f; }
  void fixed_number_of_particles_per_block(const V &v) { fixed = v; }
  void initialize_with_fock(const FockMatrix<T> &f) { guess = f; }
  void initialize_with_orbitals(const Orbitals<T> &o, const OrbitalOccupations<B> &n) { orbs0 = o; occs0 = n; }
  void print_citation() {}
  void run() { if (hook) hook(*this); }
  Orbitals<T> get_orbitals() const { return orbs; }
  OrbitalOccupations<B> get_orbital_occupations() const { return occs; }
};
}
