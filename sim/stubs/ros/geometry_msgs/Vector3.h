#pragma once
#include <geometry_msgs/Transform.h>
