#pragma once
#include <__symio>
