// What a user's thread does with a controller it looked up; compiled like the code under test.
#include <controller_interface/controller_base.h>
int user_looks_at(controller_interface::ControllerBase* c) { return c->isInitialized() + 2 * c->isRunning() + 4 * c->isStopped() + 8 * c->isWaiting() + 16 * c->isAborted(); }
