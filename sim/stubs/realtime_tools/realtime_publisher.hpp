#pragma once
#include <memory>
#include "simros/core.hpp"
