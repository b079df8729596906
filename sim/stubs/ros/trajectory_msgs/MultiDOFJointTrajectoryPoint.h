#pragma once
#include <string>
#include <vector>
#include <ros/ros.h>
#include <geometry_msgs/Transform.h>
namespace trajectory_msgs {
struct MultiDOFJointTrajectoryPoint { std::vector<geometry_msgs::Transform> transforms; std::vector<geometry_msgs::Twist> velocities, accelerations; ros::Duration time_from_start; };
}
