// Substitute for the EngineAPI header of the (absent) symdiff submodule.
// Only the interface that devsim uses; written for the verification harness.
#ifndef VERIF_ENGINEAPI_HH
#define VERIF_ENGINEAPI_HH
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace Eqo {
class EquationObject;
typedef std::shared_ptr<EquationObject> EqObjPtr;
}
namespace EngineAPI {
enum EqObjType {
  MODEL_OBJ, CONST_OBJ, VARIABLE_OBJ, PRODUCT_OBJ, ADD_OBJ, IF_OBJ, IFELSE_OBJ,
  USERFUNC_OBJ, EXPONENT_OBJ, POW_OBJ, LOG_OBJ, ULOGICAL_OBJ, BLOGICAL_OBJ
};
const std::string &getStringValue(const Eqo::EqObjPtr &);
double getDoubleValue(const Eqo::EqObjPtr &);
const std::string &getName(const Eqo::EqObjPtr &);
std::vector<Eqo::EqObjPtr> getArgs(const Eqo::EqObjPtr &);
EqObjType getEnumeratedType(const Eqo::EqObjPtr &);
std::set<std::string> getReferencedType(const Eqo::EqObjPtr &, EqObjType);
Eqo::EqObjPtr con(double);
Eqo::EqObjPtr mod(const std::string &);
Eqo::EqObjPtr var(const std::string &);
typedef bool (*ModelListCallback)(const std::string &);
typedef Eqo::EqObjPtr (*DerivativeRule)(Eqo::EqObjPtr, Eqo::EqObjPtr);
void SetModelListCallBack(ModelListCallback);
void SetDerivativeRule(DerivativeRule);
void ResetAllData();
}
#endif
