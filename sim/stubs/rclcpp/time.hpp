#pragma once
#include "simros/core.hpp"
