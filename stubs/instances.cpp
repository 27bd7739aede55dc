// explicit instantiations of templates of /repo that its own sources do not instantiate (no code of its own)
#include "fields2cover/types.h"
#include "fields2cover/objectives/sg_obj/sg_objective.h"
#include "fields2cover/objectives/hg_obj/hg_objective.h"
#include "fields2cover/objectives/rp_obj/rp_objective.h"
namespace f2c {
template double types::Geometry<OGRPoint, wkbPoint>::getAngContinuity(double, double);
template double types::Geometry<OGRPoint, wkbPoint>::getAngleDiffAbs(double, double);
template double types::Geometry<OGRPoint, wkbPoint>::getAngleAvg(double, double);
template std::vector<double> types::Geometry<OGRPoint, wkbPoint>::getAngContinuity(const std::vector<double>&);
template double obj::BaseObjective<obj::SGObjective>::computeCostWithMinimizingSign<types::Swaths>(const types::Swaths&);
template double obj::BaseObjective<obj::SGObjective>::computeCostWithMinimizingSign<types::Cells, types::SwathsByCells>(const types::Cells&, const types::SwathsByCells&);
template double obj::BaseObjective<obj::SGObjective>::computeCostWithMinimizingSign<double, double, types::Cell>(const double&, const double&, const types::Cell&);
template double obj::BaseObjective<obj::HGObjective>::computeCostWithMinimizingSign<types::Cells, types::Cells>(const types::Cells&, const types::Cells&);
template double obj::BaseObjective<obj::RPObjective>::computeCostWithMinimizingSign<types::Point, double, types::Point, double>(const types::Point&, const double&, const types::Point&, const double&);
template double obj::BaseObjective<obj::RPObjective>::computeCostWithMinimizingSign<types::MultiPoint>(const types::MultiPoint&);
}  // namespace f2c
