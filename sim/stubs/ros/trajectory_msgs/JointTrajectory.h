#pragma once
#include <trajectory_msgs/JointTrajectoryPoint.h>
namespace trajectory_msgs {
struct JointTrajectory {
  std_msgs::Header header; std::vector<std::string> joint_names; std::vector<JointTrajectoryPoint> points;
  typedef std::shared_ptr<JointTrajectory> Ptr; typedef std::shared_ptr<JointTrajectory const> ConstPtr;
};
typedef std::shared_ptr<JointTrajectory> JointTrajectoryPtr; typedef std::shared_ptr<JointTrajectory const> JointTrajectoryConstPtr;
}
