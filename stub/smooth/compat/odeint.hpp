#pragma once
#include <boost/numeric/odeint.hpp>
#include "../concepts/lie_group.hpp"
