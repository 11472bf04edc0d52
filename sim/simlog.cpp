// Thin adapters to RoDeO's four loggers (their headers cannot be included together).
#include <string>
#if LOGGER == 0
#include "ObjectiveFunctions/INCLUDE/objective_function_logger.hpp"
#include "Driver/INCLUDE/driver_logger.hpp"
void simLogDriver(int level, const std::string &m) { Rodop::DriverLogger::getInstance().log((Rodop::LogLevel)level, m); }
#elif LOGGER == 1
#include "Optimizers/INCLUDE/optimization_logger.hpp"
void simLogOptimization(int level, const std::string &m) { Rodop::OptimizationLogger::getInstance().log((Rodop::LogLevel)level, m); }
#elif LOGGER == 2
#include "SurrogateModels/INCLUDE/model_logger.hpp"
void simLogModel(int level, const std::string &m) { Rodop::ModelLogger::getInstance().log((Rodop::LogLevel)level, m); }
#elif LOGGER == 3
#include "ObjectiveFunctions/INCLUDE/objective_function_logger.hpp"
void simLogObjective(int level, const std::string &m) { Rodop::ObjectiveFunctionLogger::getInstance().log((Rodop::LogLevel)level, m); }
#endif
