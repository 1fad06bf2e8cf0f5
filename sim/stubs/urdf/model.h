#pragma once
#include <urdf_model/model.h>
#include <urdf_parser/urdf_parser.h>
#include <string>
namespace urdf
{
class Model : public ModelInterface
{
public:
  bool initString(const std::string & s)
  {
    ModelInterfaceSharedPtr m;
    try { m = parseURDF(s); } catch (...) { return false; }
    if (!m) return false;
    this->links_ = m->links_;
    this->joints_ = m->joints_;
    this->materials_ = m->materials_;
    this->name_ = m->name_;
    this->root_link_ = m->root_link_;
    return true;
  }
};
}
