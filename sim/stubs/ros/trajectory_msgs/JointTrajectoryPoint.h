#pragma once
#include <string>
#include <vector>
#include <ros/ros.h>
namespace trajectory_msgs {
struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; ros::Duration time_from_start; };
}
