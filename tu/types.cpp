// Compile-time witnesses: every static_assert is one obligation of property K01 (never linked or run).
#include <array>
#include <chrono>
#include <list>
#include <map>
#include <string>
#include <tuple>
#include <vector>

#include <smooth/feedback/nlp.hpp>
#include <smooth/feedback/qp.hpp>
#include <smooth/feedback/qp_solver.hpp>
#include <smooth/feedback/time.hpp>
#include <smooth/feedback/traits.hpp>
#include <smooth/feedback/utils/sparse.hpp>
#include <smooth/feedback/compat/ros.hpp>

namespace sf = smooth::feedback;
using V  = Eigen::VectorXd;
using CV = const Eigen::Ref<const V> &;
using S  = Eigen::SparseMatrix<double>;
using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>;
struct Bad {};

// a type with every member of an NLP; DROP removes one of them and BREAK gives one of them a result that cannot be converted
template<int DROP = -1, int BREAK = -1>
struct Prob
{
  template<int I, typename T>
  using R = std::conditional_t<BREAK == I, Bad, T>;
  R<0, std::size_t> n() const requires(DROP != 0);
  R<1, std::size_t> m() const requires(DROP != 1);
  R<2, V> xl() const requires(DROP != 2);
  R<3, V> xu() const requires(DROP != 3);
  R<4, double> f(CV) requires(DROP != 4);
  R<5, const S &> df_dx(CV) requires(DROP != 5);
  R<6, const V &> g(CV) requires(DROP != 6);
  R<7, V> gl() const requires(DROP != 7);
  R<8, V> gu() const requires(DROP != 8);
  R<9, const S &> dg_dx(CV) requires(DROP != 9);
  R<10, const S &> d2f_dx2(CV) requires(DROP != 10);
  R<11, const S &> d2g_dx2(CV, CV) requires(DROP != 11);
};
// other spellings of the same interface
struct Loose
{
  int n();
  unsigned m();
  Eigen::Vector3d xl();
  Eigen::Ref<V> xu();
  float f(V);
  SR df_dx(V);
  Eigen::Vector2d g(V);
  V & gl();
  V && gu();
  SR dg_dx(const V &);
};
struct LooseH : Loose
{
  SR d2f_dx2(V);
  SR d2g_dx2(V, V);
};
struct OnlyF : Loose { SR d2f_dx2(V); };
struct OnlyG : Loose { SR d2g_dx2(V, V); };
struct NoLambda : Loose { SR d2f_dx2(V); SR d2g_dx2(V); };
struct OnlyHessians { SR d2f_dx2(V); SR d2g_dx2(V, V); };
struct Static
{
  static std::size_t n();
  static std::size_t m();
  static V xl();
  static V xu();
  static double f(CV);
  static S df_dx(CV);
  static V g(CV);
  static V gl();
  static V gu();
  static S dg_dx(CV);
};
struct Fields   // callable members
{
  std::size_t (*n)();
  std::size_t (*m)();
  V (*xl)();
  V (*xu)();
  double (*f)(CV);
  S (*df_dx)(CV);
  V (*g)(CV);
  V (*gl)();
  V (*gu)();
  S (*dg_dx)(CV);
};

static_assert(sf::NLP<Prob<>>, "NLP accepts a type with the whole interface");
static_assert(sf::NLP<Prob<> &>, "NLP accepts a reference to a problem");
static_assert(sf::NLP<const Prob<> &>, "NLP accepts a constant reference to a problem (the decayed type is what counts)");
static_assert(sf::NLP<Prob<> &&>, "NLP accepts an rvalue problem");
static_assert(sf::NLP<const Prob<>>, "NLP accepts a constant problem (the decayed type is what counts)");
static_assert(sf::NLP<Loose>, "NLP accepts convertible results and arguments by value");
static_assert(sf::NLP<Static>, "NLP accepts static members");
static_assert(sf::NLP<Fields>, "NLP accepts callable members");
static_assert(sf::NLP<Prob<10>>, "NLP does not require the Hessian of the objective");
static_assert(sf::NLP<Prob<11>>, "NLP does not require the Hessian of the constraints");
static_assert(!sf::NLP<Prob<0>>, "NLP requires n");
static_assert(!sf::NLP<Prob<1>>, "NLP requires m");
static_assert(!sf::NLP<Prob<2>>, "NLP requires xl");
static_assert(!sf::NLP<Prob<3>>, "NLP requires xu");
static_assert(!sf::NLP<Prob<4>>, "NLP requires f");
static_assert(!sf::NLP<Prob<5>>, "NLP requires df_dx");
static_assert(!sf::NLP<Prob<6>>, "NLP requires g");
static_assert(!sf::NLP<Prob<7>>, "NLP requires gl");
static_assert(!sf::NLP<Prob<8>>, "NLP requires gu");
static_assert(!sf::NLP<Prob<9>>, "NLP requires dg_dx");
static_assert(!sf::NLP<Prob<-1, 0>>, "NLP requires n to be a size");
static_assert(!sf::NLP<Prob<-1, 1>>, "NLP requires m to be a size");
static_assert(!sf::NLP<Prob<-1, 2>>, "NLP requires xl to be a vector");
static_assert(!sf::NLP<Prob<-1, 3>>, "NLP requires xu to be a vector");
static_assert(!sf::NLP<Prob<-1, 4>>, "NLP requires f to be a number");
static_assert(!sf::NLP<Prob<-1, 5>>, "NLP requires df_dx to be a sparse matrix");
static_assert(!sf::NLP<Prob<-1, 6>>, "NLP requires g to be a vector");
static_assert(!sf::NLP<Prob<-1, 7>>, "NLP requires gl to be a vector");
static_assert(!sf::NLP<Prob<-1, 8>>, "NLP requires gu to be a vector");
static_assert(!sf::NLP<Prob<-1, 9>>, "NLP requires dg_dx to be a sparse matrix");
static_assert(!sf::NLP<int> && !sf::NLP<Bad> && !sf::NLP<V>, "NLP rejects unrelated types");
static_assert(!sf::NLP<OnlyHessians>, "NLP rejects a type with nothing but Hessians");

static_assert(sf::HessianNLP<Prob<>>, "HessianNLP accepts a type with the whole interface");
static_assert(sf::HessianNLP<Prob<> &> && sf::HessianNLP<const Prob<> &>, "HessianNLP accepts references to a problem");
static_assert(sf::HessianNLP<LooseH>, "HessianNLP accepts convertible results and arguments by value");
static_assert(!sf::HessianNLP<Prob<10>>, "HessianNLP requires d2f_dx2");
static_assert(!sf::HessianNLP<Prob<11>>, "HessianNLP requires d2g_dx2");
static_assert(!sf::HessianNLP<Prob<-1, 10>>, "HessianNLP requires d2f_dx2 to be a sparse matrix");
static_assert(!sf::HessianNLP<Prob<-1, 11>>, "HessianNLP requires d2g_dx2 to be a sparse matrix");
static_assert(!sf::HessianNLP<OnlyF>, "HessianNLP rejects a problem with the Hessian of the objective only");
static_assert(!sf::HessianNLP<OnlyG>, "HessianNLP rejects a problem with the Hessian of the constraints only");
static_assert(!sf::HessianNLP<NoLambda>, "HessianNLP requires d2g_dx2 to take the multipliers");
static_assert(!sf::HessianNLP<Loose>, "HessianNLP rejects a problem without Hessians");
static_assert(!sf::HessianNLP<OnlyHessians>, "HessianNLP requires an NLP");
static_assert(!sf::HessianNLP<Prob<0>> && !sf::HessianNLP<Prob<4>> && !sf::HessianNLP<Prob<6>> && !sf::HessianNLP<Prob<9>>, "HessianNLP requires the members of an NLP");

// times
struct Own { double v; };
struct NoMinus {};
struct NoPlus {};
struct BadPlus {};
struct BadMinus {};
template<> struct sf::time_trait<Own> { static Own plus(Own, double); static float minus(Own, Own); };
template<> struct sf::time_trait<NoMinus> { static NoMinus plus(NoMinus, double); };
template<> struct sf::time_trait<NoPlus> { static double minus(NoPlus, NoPlus); };
template<> struct sf::time_trait<BadPlus> { static Bad plus(BadPlus, double); static double minus(BadPlus, BadPlus); };
template<> struct sf::time_trait<BadMinus> { static BadMinus plus(BadMinus, double); static Bad minus(BadMinus, BadMinus); };
using namespace std::chrono;
using third = duration<long long, std::ratio<1, 3>>;
using tp_d  = time_point<steady_clock, duration<double>>;

static_assert(sf::Time<float> && sf::Time<double> && sf::Time<long double>, "floating point numbers are times");
static_assert(sf::Time<nanoseconds> && sf::Time<milliseconds> && sf::Time<seconds> && sf::Time<hours>, "std::chrono durations are times");
static_assert(sf::Time<duration<double>> && sf::Time<duration<float, std::milli>> && sf::Time<third>, "durations of any representation and period are times");
static_assert(sf::Time<steady_clock::time_point> && sf::Time<system_clock::time_point> && sf::Time<tp_d> && sf::Time<time_point<system_clock, milliseconds>>, "std::chrono time points of any clock and duration are times");
static_assert(sf::Time<rclcpp::Time>, "ROS times are times");
static_assert(sf::Time<Own>, "a type with its own time_trait is a time");
static_assert(!sf::Time<NoMinus>, "a time needs minus");
static_assert(!sf::Time<NoPlus>, "a time needs plus");
static_assert(!sf::Time<BadPlus>, "the sum of a time and a number must be a time");
static_assert(!sf::Time<BadMinus>, "the difference of two times must be a number");
static_assert(!sf::Time<int> && !sf::Time<unsigned long> && !sf::Time<bool>, "integers are no times");
static_assert(!sf::Time<std::string> && !sf::Time<Bad> && !sf::Time<Eigen::Vector3d>, "types without time_trait are no times");
template<typename T>
constexpr bool time_types = std::is_same_v<decltype(sf::time_trait<T>::plus(std::declval<T>(), 1.)), T> && std::is_same_v<decltype(sf::time_trait<T>::minus(std::declval<T>(), std::declval<T>())), double>;
static_assert(time_types<float> && time_types<double> && time_types<long double>, "plus and minus of floating times have the type of the time and double");
static_assert(time_types<nanoseconds> && time_types<hours> && time_types<third> && time_types<duration<float>>, "plus and minus of durations have the type of the time and double");
static_assert(time_types<steady_clock::time_point> && time_types<tp_d> && time_types<rclcpp::Time>, "plus and minus of time points have the type of the time and double");

// template specializations
template<std::size_t...> struct Sz {};
template<std::size_t...> struct Sz2 {};
template<typename...> struct Ty {};
template<typename> struct One {};
struct Derived : std::tuple<int> {};
namespace tr = sf::traits;
static_assert(tr::is_specialization_of_v<std::tuple<>, std::tuple> && tr::is_specialization_of_v<std::tuple<int, Bad>, std::tuple>, "tuples are specializations of tuple");
static_assert(tr::is_specialization_of_v<std::vector<int>, std::vector> && tr::is_specialization_of_v<std::map<int, Bad>, std::map>, "containers are specializations of their templates");
static_assert(tr::is_specialization_of_v<One<int>, One> && tr::is_specialization_of_v<Ty<>, Ty> && tr::is_specialization_of_v<Ty<int, int, int>, Ty>, "templates of any number of parameters");
static_assert(!tr::is_specialization_of_v<std::vector<int>, std::list> && !tr::is_specialization_of_v<std::pair<int, int>, std::tuple>, "specializations of another template are told apart");
static_assert(!tr::is_specialization_of_v<int, std::vector> && !tr::is_specialization_of_v<Bad, Ty> && !tr::is_specialization_of_v<Sz<1>, Ty>, "other types are no specializations");
static_assert(!tr::is_specialization_of_v<Derived, std::tuple>, "a derived class is no specialization");
static_assert(tr::is_specialization_of<Ty<int>, Ty>::value && !tr::is_specialization_of<Ty<int>, One>::value, "the trait classes agree with the variables");
static_assert(tr::is_specialization_of_sizet_v<Sz<>, Sz> && tr::is_specialization_of_sizet_v<Sz<1>, Sz> && tr::is_specialization_of_sizet_v<Sz<3, 0, 7>, Sz>, "specializations by sizes of any number");
static_assert(tr::is_specialization_of_sizet_v<std::index_sequence<>, Sz> == false && !tr::is_specialization_of_sizet_v<Sz<1>, Sz2> && !tr::is_specialization_of_sizet_v<Ty<int>, Sz> && !tr::is_specialization_of_sizet_v<int, Sz>, "specializations by sizes of another template are told apart");
static_assert(tr::is_specialization_of_sizet<Sz<2>, Sz>::value && !tr::is_specialization_of_sizet<Sz<2>, Sz2>::value, "the trait classes by sizes agree with the variables");

// dimensions and number types of quadratic programs and their solutions
template<typename X, int R, int C, typename T>
constexpr bool dense = X::RowsAtCompileTime == R && X::ColsAtCompileTime == C && std::is_same_v<typename X::Scalar, T> && std::is_base_of_v<Eigen::MatrixBase<X>, X>;
template<int M, int N, typename T>
constexpr bool qp_dims = dense<decltype(sf::QuadraticProgram<M, N, T>::P), N, N, T> && dense<decltype(sf::QuadraticProgram<M, N, T>::q), N, 1, T>
  && dense<decltype(sf::QuadraticProgram<M, N, T>::A), M, N, T> && dense<decltype(sf::QuadraticProgram<M, N, T>::l), M, 1, T> && dense<decltype(sf::QuadraticProgram<M, N, T>::u), M, 1, T>;
static_assert(qp_dims<3, 2, double> && qp_dims<2, 5, float> && qp_dims<-1, -1, double> && qp_dims<-1, 4, double> && qp_dims<4, -1, float> && qp_dims<0, 3, double>, "the data of a quadratic program have its dimensions and number type");
template<int M, int N, typename T>
constexpr bool sol_dims = dense<decltype(sf::QPSolution<M, N, T>::primal), N, 1, T> && dense<decltype(sf::QPSolution<M, N, T>::dual), M, 1, T> && std::is_same_v<decltype(sf::QPSolution<M, N, T>::objective), T>;
static_assert(sol_dims<3, 2, double> && sol_dims<2, 5, float> && sol_dims<-1, -1, float>, "primal, dual and objective have the dimensions and number type of the problem");
static_assert(std::is_same_v<sf::QuadraticProgram<3, 2>, sf::QuadraticProgram<3, 2, double>> && std::is_same_v<sf::QPSolution<3, 2>, sf::QPSolution<3, 2, double>> && std::is_same_v<sf::QuadraticProgramSparse<>, sf::QuadraticProgramSparse<double>>, "the number type defaults to double");
template<typename T>
constexpr bool sparse_dims = std::is_same_v<decltype(sf::QuadraticProgramSparse<T>::P), Eigen::SparseMatrix<T>> && std::is_same_v<decltype(sf::QuadraticProgramSparse<T>::A), Eigen::SparseMatrix<T, Eigen::RowMajor>>
  && dense<decltype(sf::QuadraticProgramSparse<T>::q), -1, 1, T> && dense<decltype(sf::QuadraticProgramSparse<T>::l), -1, 1, T> && dense<decltype(sf::QuadraticProgramSparse<T>::u), -1, 1, T>;
static_assert(sparse_dims<double> && sparse_dims<float>, "sparse problems store the cost by columns and the constraints by rows");
template<typename P>
using sol_t = std::decay_t<decltype(sf::solve_qp(std::declval<const P &>(), std::declval<const sf::QPSolverParams &>()))>;
static_assert(std::is_same_v<sol_t<sf::QuadraticProgram<3, 2>>, sf::QPSolution<3, 2, double>>, "the solution of a static problem has its dimensions");
static_assert(std::is_same_v<sol_t<sf::QuadraticProgram<3, 2, float>>, sf::QPSolution<3, 2, float>>, "the solution of a single precision problem has its number type");
static_assert(std::is_same_v<sol_t<sf::QuadraticProgram<-1, 2>>, sf::QPSolution<-1, 2, double>> && std::is_same_v<sol_t<sf::QuadraticProgram<2, -1>>, sf::QPSolution<2, -1, double>>, "the solution of a partly dynamic problem keeps the static dimension");
static_assert(std::is_same_v<sol_t<sf::QuadraticProgramSparse<>>, sf::QPSolution<-1, -1, double>> && std::is_same_v<sol_t<sf::QuadraticProgramSparse<float>>, sf::QPSolution<-1, -1, float>>, "the solution of a sparse problem is dynamic and has its number type");
template<typename P>
using member_sol_t = std::decay_t<decltype(std::declval<sf::QPSolver<P> &>().solve(std::declval<const P &>()))>;
static_assert(std::is_same_v<member_sol_t<sf::QuadraticProgram<3, 2, float>>, sf::QPSolution<3, 2, float>> && std::is_same_v<member_sol_t<sf::QuadraticProgramSparse<>>, sf::QPSolution<-1, -1, double>>, "the solver returns the solution type of its problem");
static_assert(std::is_copy_constructible_v<sf::QPSolver<sf::QuadraticProgramSparse<>>> && std::is_copy_assignable_v<sf::QPSolver<sf::QuadraticProgramSparse<>>> && std::is_move_constructible_v<sf::QPSolver<sf::QuadraticProgram<3, 2>>>, "solvers can be copied, assigned and moved");
