// Outcomes: every member of every specialisation.
#include <boost/asynchronous/expected.hpp>
namespace ba = boost::asynchronous;
struct no_default { no_default(int); no_default(no_default&&); no_default(no_default const&); no_default& operator=(no_default&&); no_default& operator=(no_default const&); int x; };
template class ba::expected<int>;
template class ba::expected<void>;
template class ba::expected<no_default>;
