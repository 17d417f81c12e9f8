#pragma once
namespace tesseract::common { class JointState; class JointTrajectory; }
