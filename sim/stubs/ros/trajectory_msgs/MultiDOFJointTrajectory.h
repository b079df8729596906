#pragma once
#include <trajectory_msgs/MultiDOFJointTrajectoryPoint.h>
namespace trajectory_msgs {
struct MultiDOFJointTrajectory {
  std_msgs::Header header; std::vector<std::string> joint_names; std::vector<MultiDOFJointTrajectoryPoint> points;
  typedef std::shared_ptr<MultiDOFJointTrajectory> Ptr; typedef std::shared_ptr<MultiDOFJointTrajectory const> ConstPtr;
};
typedef std::shared_ptr<MultiDOFJointTrajectory> MultiDOFJointTrajectoryPtr; typedef std::shared_ptr<MultiDOFJointTrajectory const> MultiDOFJointTrajectoryConstPtr;
}
