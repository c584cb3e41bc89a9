#pragma once
namespace sim {
extern bool accel;
}
