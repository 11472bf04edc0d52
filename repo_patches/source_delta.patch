From 1e5910ffd432dbda146347a3aa9539f2d1d467a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 01/47] Simulator observation points, compiled only with
 -DRODEO_SIM

---
 src/INCLUDE/sim_hooks.hpp                | 23 +++++++++++++++++++++++
 src/Optimizers/optimization.cpp          | 14 ++++++++++++++
 src/SurrogateModels/kriging_training.cpp |  9 +++++++--
 3 files changed, 44 insertions(+), 2 deletions(-)
 create mode 100644 src/INCLUDE/sim_hooks.hpp

diff --git a/src/INCLUDE/sim_hooks.hpp b/src/INCLUDE/sim_hooks.hpp
new file mode 100644
index 0000000..24af655
--- /dev/null
+++ b/src/INCLUDE/sim_hooks.hpp
@@ -0,0 +1,23 @@
+#ifndef SIM_HOOKS_HPP
+#define SIM_HOOKS_HPP
+
+/* Observation points for the deterministic simulator. They are compiled only with -DRODEO_SIM and
+ * never change the behaviour of the program. */
+
+#ifdef RODEO_SIM
+
+namespace RodeoSim{
+
+void acquisitionCandidate(const double *dv, unsigned int dim, double value);
+void acquisitionSelected(const double *dv, unsigned int dim, double value);
+void acquisitionRefined(const double *dv, unsigned int dim, double valueBefore, double valueAfter);
+void hyperParameterCandidate(const double *parameters, unsigned int dim, double value);
+
+}
+
+#define RODEO_SIM_HOOK(statement) statement
+#else
+#define RODEO_SIM_HOOK(statement)
+#endif
+
+#endif
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..556f8fc 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -16,6 +16,7 @@
 #include "./INCLUDE/aux.hpp"
 #include "./INCLUDE/optimization_logger.hpp"
 #include "../LinearAlgebra/INCLUDE/vector.hpp"
+#include "../INCLUDE/sim_hooks.hpp"
 
 namespace Rodop{
 
@@ -687,6 +688,7 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			designToBeTried.generateRandomDesignVectorAroundASample(dv0, lb,ub);
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
+			RODEO_SIM_HOOK(RodeoSim::acquisitionCandidate(designToBeTried.dv.getPointer(), dimension, designToBeTried.valueAcquisitionFunction);)
 			if (designToBeTried.valueAcquisitionFunction
 					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
@@ -727,6 +729,7 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		designToBeTried.generateRandomDesignVector(lb, ub);
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
+		RODEO_SIM_HOOK(RodeoSim::acquisitionCandidate(designToBeTried.dv.getPointer(), dimension, designToBeTried.valueAcquisitionFunction);)
 		if (designToBeTried.valueAcquisitionFunction
 				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
@@ -778,6 +781,8 @@ void Optimizer::findTheMostPromisingDesignEGO(void){
 
 	printInfoToLog(designWithMaxAcqusition.toString());
 
+	RODEO_SIM_HOOK(RodeoSim::acquisitionSelected(designWithMaxAcqusition.dv.getPointer(), dimension, designWithMaxAcqusition.valueAcquisitionFunction);)
+
 	theMostPromisingDesigns.push_back(designWithMaxAcqusition);
 	numberOfGlobalSearchSteps++;
 
@@ -904,6 +909,15 @@ DesignForBayesianOptimization Optimizer::maximizeAcqusitionFunctionGradientBased
 
 	} /* end of gradient-search loop */
 
+#ifdef RODEO_SIM
+	DesignForBayesianOptimization designToCheck = bestDesign;
+	objFun.calculateExpectedImprovement(initialDesign);
+	addPenaltyToAcqusitionFunctionForConstraints(initialDesign);
+	objFun.calculateExpectedImprovement(designToCheck);
+	addPenaltyToAcqusitionFunctionForConstraints(designToCheck);
+	RodeoSim::acquisitionRefined(designToCheck.dv.getPointer(), dimension, initialDesign.valueAcquisitionFunction, designToCheck.valueAcquisitionFunction);
+#endif
+
 	printInfoToLog(bestDesign.toString());
 	return bestDesign;
 
diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..7245140 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -9,6 +9,7 @@
 #include "./INCLUDE/kriging_training.hpp"
 #include "./INCLUDE/linear_regression.hpp"
 #include "./INCLUDE/model_logger.hpp"
+#include "../INCLUDE/sim_hooks.hpp"
 
 
 #ifdef OPENMP_SUPPORT
@@ -846,15 +847,19 @@ void KrigingHyperParameterOptimizer::initializeKrigingModelObject(KrigingModel i
 double KrigingHyperParameterOptimizer::calculateObjectiveFunctionInternal(const vec& input){
 
 
+	double value = 0.0;
+
 	if(objectiveFunctionType == VALIDATION_ERROR){
-		return KrigingModelForCalculations.calculateValidationErrorForGivenHyperparameters(input);
+		value = KrigingModelForCalculations.calculateValidationErrorForGivenHyperparameters(input);
 	}
 	else if(objectiveFunctionType == MAXIMUM_LIKELIHOOD){
-		return -1.0* KrigingModelForCalculations.calculateLikelihoodFunction(input);
+		value = -1.0* KrigingModelForCalculations.calculateLikelihoodFunction(input);
 	}
 	else{
 		throw std::runtime_error("Not valid objective function type for Kriging parameter training");
 	}
+	RODEO_SIM_HOOK(RodeoSim::hyperParameterCandidate(input.getPointer(), input.getSize(), value);)
+	return value;
 }
 
 
-- 
2.43.0


From e9fb3fc91a2fcccb178e9c31b55f8527f2f62e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 02/47] fix: compare candidates inside the critical section of
 the acquisition search

The comparison was done outside, so it raced with the assignment of another
thread and a worse candidate could overwrite a better one.
---
 src/Optimizers/optimization.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 556f8fc..b8aa699 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -689,18 +689,18 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
 			RODEO_SIM_HOOK(RodeoSim::acquisitionCandidate(designToBeTried.dv.getPointer(), dimension, designToBeTried.valueAcquisitionFunction);)
-			if (designToBeTried.valueAcquisitionFunction
-					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-				{
+			{
+				if (designToBeTried.valueAcquisitionFunction
+						> designWithMaxAcqusition.valueAcquisitionFunction) {
 					designWithMaxAcqusition = designToBeTried;
-				}
 #if 0
-				printf("A design with a better EI value has been found (second loop) \n");
-				designToBeTried.print();
+					printf("A design with a better EI value has been found (second loop) \n");
+					designToBeTried.print();
 #endif
+				}
 			}
 		}
 	}
@@ -730,12 +730,12 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
 		RODEO_SIM_HOOK(RodeoSim::acquisitionCandidate(designToBeTried.dv.getPointer(), dimension, designToBeTried.valueAcquisitionFunction);)
-		if (designToBeTried.valueAcquisitionFunction
-				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-			{
+		{
+			if (designToBeTried.valueAcquisitionFunction
+					> designWithMaxAcqusition.valueAcquisitionFunction) {
 				designWithMaxAcqusition = designToBeTried;
 			}
 		}
-- 
2.43.0


From 8d9315f31e5041cf5b9f49c5d2dfd70dd22381ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 03/47] fix: give every individual of the evolutionary
 optimiser an ID of its own

The first child got the ID of the last initial individual, and after a warm
start children got the IDs of loaded individuals, so that lookups and removals
by ID hit the wrong individual.
---
 src/InternalOptimizers/INCLUDE/ea_optimizer.hpp  | 1 +
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 1 +
 src/InternalOptimizers/ea_optimizer.cpp          | 7 ++++---
 src/InternalOptimizers/ea_population.cpp         | 8 ++++++++
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
index a793aef..9340127 100644
--- a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
@@ -38,6 +38,7 @@ private:
 	unsigned int sizeOfInitialPopulation = 0;
 
 	unsigned int totalNumberOfGeneratedIndividuals = 0;
+	unsigned int idOffset = 0;
 	unsigned int totalNumberOfCrossOvers = 0;
 
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..2eec661 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -80,6 +80,7 @@ public:
 
 	void reset(void);
 	bool hasRepeatedIDs() const;
+	unsigned int getLargestId() const;
 
 };
 
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..0840a14 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -105,7 +105,7 @@ EAIndividual  EAOptimizer::generateRandomIndividual(void){
 
 	//	output.printMessage("x", randomGenes);
 	newIndividual.initializeGenes(randomGenes);
-	unsigned int id = ++totalNumberOfGeneratedIndividuals;
+	unsigned int id = idOffset + (++totalNumberOfGeneratedIndividuals);
 	newIndividual.setId(id);
 
 
@@ -292,8 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
-	++totalNumberOfGeneratedIndividuals;
+	child.setId(idOffset + (++totalNumberOfGeneratedIndividuals));
 	return child;
 
 }
@@ -550,6 +549,8 @@ void EAOptimizer::readWarmRestartFile() {
 
 	try {
 		population.readFromCSV(filenameWarmStart);
+		// new individuals must not get the IDs of the loaded ones
+		idOffset = population.getLargestId();
 		ifPopulationIsInitialized = true;  // Set the flag after successful read
 	} catch (const std::exception& e) {
 		// Handle exceptions from readFromCSV
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..d8e197f 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -654,6 +654,14 @@ double EAPopulation::calculateSumOfDeathProbabilities() const {
 }
 
 
+unsigned int EAPopulation::getLargestId() const {
+	unsigned int largest = 0;
+	for (const auto& individual : population) {
+		largest = std::max(largest, individual.getId());
+	}
+	return largest;
+}
+
 bool EAPopulation::hasRepeatedIDs() const {
         std::set<unsigned int> idSet;  // Set to store unique IDs
 
-- 
2.43.0


From 36e73a8a1c7353a591141742a43ed020c9391b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 04/47] fix: keep the best individual of the evolutionary
 optimiser, and its fitness positive

The extremes were reset to numeric_limits::min() (the smallest positive number)
or not at all, so that populations with negative values had a wrong maximum.
The fitness polynomial was found by inverting a matrix that is singular or
ill-conditioned when the values are close to each other, which ended in
negative fitness and an exception. In a small population the best individual
could die, or all of them.
---
 .../INCLUDE/ea_population.hpp                 |   6 +-
 src/InternalOptimizers/ea_optimizer.cpp       |   3 +
 src/InternalOptimizers/ea_population.cpp      | 104 ++++--------------
 3 files changed, 26 insertions(+), 87 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 2eec661..0807406 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -18,8 +18,8 @@ private:
 
 	std::vector<EAIndividual> population;
 
-	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMinimum = std::numeric_limits<double>::infinity();
+	double populationMaximum = -std::numeric_limits<double>::infinity();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
@@ -27,8 +27,6 @@ private:
 	void updateMinAndMaxIfNecessary(double J, unsigned int id);
 	std::string polynomialForFitnessDistrubution = "quadratic";
 
-	vec findPolynomialCoefficientsForQuadraticFitnessDistribution(void) const;
-
 	void updateFitnessValuesLinear();
 	void updateFitnessValuesQuadratic();
 
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index 0840a14..05f843c 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -346,6 +346,9 @@ void EAOptimizer::removeIndividualsFromPopulation(void) {
 
 	for(unsigned int i=0; i<numberOfDeathsInAGeneration; i++){
 
+		/* two individuals must be left for reproduction */
+		if(population.getSize() <= 2) break;
+
 		EAIndividual individualToRemove = population.pickUpAnIndividualThatWillDie();
 
 		removed.addIndividual(individualToRemove);
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index d8e197f..352213a 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -174,6 +174,7 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	updatePopulationMinAndMax();
 
 }
 
@@ -249,7 +250,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
@@ -347,8 +348,8 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
-	populationMinimum =  std::numeric_limits<double>::max();;
+	populationMaximum = -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
 
@@ -403,24 +404,26 @@ void EAPopulation::updateFitnessValuesLinear() {
 	}
 }
 
+/* Here we assume a quadratic function between fitness and objective function values:
+ *
+ * fitness(populationMinimum) = 1.0 (best fitness)
+ * fitness(populationMaximum) = aValueCloseButNotEqualToZero (worst fitness), with zero derivative there
+ *
+ */
+
 void EAPopulation::updateFitnessValuesQuadratic() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
+	const double aValueCloseButNotEqualToZero = 0.01;
+	const double range = populationMaximum - populationMinimum;
 
-	vec coefficients =
-			findPolynomialCoefficientsForQuadraticFitnessDistribution();
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
-		double x = it->getObjectiveFunctionValue();
-		double fitnessValue = coefficients(0) * x * x + coefficients(1) * x
-				+ coefficients(2);
-		if(fitnessValue <= 0.0){
-			print();
-			std::cerr<< "WARNING: fitness value = " << fitnessValue << "\n";
-			throw std::runtime_error("EAPopulation::updateFitnessValuesQuadratic: invalid fitness value");
+		/* all individuals are equally fit if they all have the same value */
+		double distanceToTheWorst = 1.0;
+		if(range > 0.0){
+			distanceToTheWorst = (populationMaximum - it->getObjectiveFunctionValue())/range;
 		}
-
-
-		it->setFitnessValue(fitnessValue);
+		it->setFitnessValue(aValueCloseButNotEqualToZero
+				+ (1.0 - aValueCloseButNotEqualToZero) * distanceToTheWorst * distanceToTheWorst);
 	}
 }
 
@@ -445,72 +448,6 @@ void EAPopulation::updateFitnessValues(void){
 }
 
 
-/* Here we assume a quadratic function between fitness and objective function values.
- *
- *
- * fitness(J) = a*x*x + b*x + c
- *
- * J(populationMaximum)  = aValueCloseButNotEqualToZero
- * J(populationMinimum)  = 1.0
- *
- */
-
-vec EAPopulation::findPolynomialCoefficientsForQuadraticFitnessDistribution() const {
-	vec coefficients(3);
-	mat A(3,3);
-	double aValueCloseButNotEqualToZero = 0.01;
-
-	/*
-	 * fitness = a*x*x + b*x + c
-	 *
-	 * fitness(min) = 1 (best fitness)
-	 * fitness(max) = 0.001 (worst fitness)
-	 * dfitness/dx = 2*a*x + b  = 0
-	 *
-	 * a * populationMinimum * populationMinimum + b*populationMinimum + c = 1
-	 * a * populationMaximum * populationMaximum + b*populationMaximum + c = aValueCloseButNotEqualToZero
-	 *
-	 * derivative at populationMaximum = 0
-	 *
-	 *
-	 * */
-
-//	std::cout<<"populationMinimum = " << populationMinimum << "\n";
-//	std::cout<<"populationMaximum = " << populationMaximum << "\n";
-
-	A(0,0) = populationMinimum * populationMinimum;
-	A(0,1) = populationMinimum;
-	A(0,2) = 1.0;
-
-	A(1,0) = populationMaximum * populationMaximum;
-	A(1,1) = populationMaximum;
-	A(1,2) = 1.0;
-
-	A(2,0) = 2.0 * populationMaximum;
-	A(2,1) = 1.0;
-	A(2,2) = 0.0;
-
-	vec rhs(3);
-	rhs(0) = 1.0;
-	rhs(1) = aValueCloseButNotEqualToZero;
-	rhs(2) = 0.0;
-
-	mat A_inv = A.invert();
-	coefficients = A_inv.matVecProduct(rhs);
-
-//	double f1 = coefficients(0)*populationMinimum * populationMinimum + coefficients(1) * populationMinimum + coefficients(2);
-//	double f2 = coefficients(0)*populationMaximum * populationMaximum + coefficients(1) * populationMaximum + coefficients(2);
-//	double f3 = 2*coefficients(0)*populationMaximum + coefficients(1);
-//
-//	std::cout<<"f1 = " << f1 << "\n";
-//	std::cout<<"f2 = " << f2 << "\n";
-//	std::cout<<"f3 = " << f3 << "\n";
-
-	return coefficients;
-}
-
-
-
 void EAPopulation::updateReproductionProbabilities(void){
 
 	double sumFitness = 0.0;
@@ -551,7 +488,8 @@ void EAPopulation::updateDeathProbabilities(void){
 
 	for(i=0; i<getSize(); i++) {
 
-		if(fitnessValues(i) > best10PercentThreshold){
+		/* the best individual never dies */
+		if(fitnessValues(i) > best10PercentThreshold || population[i].getId() == idPopulationMinimum){
 			oneOverFitness(i) = 0.0;
 		}
 		else{
-- 
2.43.0


From 3f367f17a0066191ab2eb5c920ba14672977553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 05/47] fix: store result files completely or not at all, and
 report failed writes

Training data, history, optimum report, hyper-parameters and populations were
written in place without looking at the result: a full disk or a crash left
them empty or cut short while the study went on. A row appended to training
data whose last line was not terminated was fused with that line. A design file
that could not be written was handed to the evaluator anyway.
---
 src/Design/design.cpp                         |  3 +
 src/INCLUDE/file_output.hpp                   | 31 ++++++++++
 src/InternalOptimizers/ea_population.cpp      | 11 ++--
 src/LinearAlgebra/matrix.cpp                  | 56 ++++++++-----------
 src/LinearAlgebra/vector.cpp                  | 55 +++++++++---------
 src/ObjectiveFunctions/objective_function.cpp |  6 +-
 src/Optimizers/globalOptimalDesign.cpp        | 10 +---
 7 files changed, 93 insertions(+), 79 deletions(-)
 create mode 100644 src/INCLUDE/file_output.hpp

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 2370ef8..190f15a 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -674,6 +674,9 @@ void Design::saveDesignVector(const std::string& fileName) const {
             designVectorFile << designParameters(i) << "\n";
         }
         designVectorFile.close();
+        if (designVectorFile.fail()) {
+            throw std::runtime_error("ERROR: Unable to write to file: " + fileName);
+        }
     } else {
         throw std::runtime_error("ERROR: Unable to open file: " + fileName);
     }
diff --git a/src/INCLUDE/file_output.hpp b/src/INCLUDE/file_output.hpp
new file mode 100644
index 0000000..4091df1
--- /dev/null
+++ b/src/INCLUDE/file_output.hpp
@@ -0,0 +1,31 @@
+#ifndef FILE_OUTPUT_HPP
+#define FILE_OUTPUT_HPP
+
+#include <cstdio>
+#include <fstream>
+#include <stdexcept>
+#include <string>
+
+namespace Rodop{
+
+/* Replaces the contents of a file completely or not at all: the text is stored in a temporary file,
+ * which takes the place of the old file only if everything has been written. */
+inline void replaceFileContents(const std::string& filename, const std::string& text) {
+	const std::string temporaryFilename = filename + ".tmp";
+
+	std::ofstream outFile(temporaryFilename);
+	if (!outFile.is_open()) {
+		throw std::runtime_error("Cannot open file: " + filename);
+	}
+	outFile << text;
+	outFile.close();
+
+	if (outFile.fail() || std::rename(temporaryFilename.c_str(), filename.c_str()) != 0) {
+		std::remove(temporaryFilename.c_str());
+		throw std::runtime_error("Failed to write to file: " + filename);
+	}
+}
+
+} /* Namespace Rodop */
+
+#endif
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 352213a..bda2c44 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -1,10 +1,12 @@
 #include "./INCLUDE/ea_population.hpp"
 #include "../LinearAlgebra/INCLUDE/vector.hpp"
 #include "../LinearAlgebra/INCLUDE/matrix.hpp"
+#include "../INCLUDE/file_output.hpp"
 #include <cassert>
 #include<chrono>
 #include<iostream>
 #include<fstream>
+#include<sstream>
 #include <iomanip>
 #include<limits>
 #include <algorithm>
@@ -208,11 +210,7 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 		throw std::invalid_argument("Dimension must be greater than 0.");
 	}
 
-	// Open file for writing
-	std::ofstream outFile(filename);
-	if (!outFile.is_open()) {
-		throw std::runtime_error("Cannot open file: " + filename);
-	}
+	std::ostringstream outFile;
 
 	// Write the header
 	outFile << "ID,ObjectiveFunctionValue,Fitness,ReproductionProbability,DeathProbability";
@@ -236,8 +234,7 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 		outFile << "\n";
 	}
 
-	// Close the file
-	outFile.close();
+	replaceFileContents(filename, outFile.str());
 }
 
 void EAPopulation::readFromCSV(const std::string& filename) {
diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..f4b6020 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -31,6 +31,7 @@
 
 
 #include "./INCLUDE/matrix.hpp"
+#include "../INCLUDE/file_output.hpp"
 #include <iostream>
 #include <iomanip>
 #include <math.h>
@@ -38,6 +39,7 @@
 #include <random>    // For std::random_device and std::mt19937
 #include <vector>
 #include <fstream>
+#include <sstream>
 
 using namespace std;
 
@@ -943,49 +945,37 @@ void mat::print(std::string msg, int p) const {
 
 
 void mat::saveAsCSV(const std::string& filename, int precision, const std::vector<std::string>& header) const {
-	std::ofstream outFile(filename);
-	if (!outFile.is_open()) {
-		throw std::runtime_error("Unable to open file for writing: " + filename);
-	}
+	std::ostringstream out;
 
 	// Set the precision for the output
-	outFile << std::fixed << std::setprecision(precision);
+	out << std::fixed << std::setprecision(precision);
 
-	try {
-		// Write header if provided
-		if (!header.empty()) {
-			if (header.size() != ncols) {
-				throw std::invalid_argument("Header size does not match the number of columns.");
-			}
-			for (size_t i = 0; i < header.size(); ++i) {
-				outFile << header[i];
-				if (i < header.size() - 1) {
-					outFile << ",";
-				}
-			}
-			outFile << "\n";
+	// Write header if provided
+	if (!header.empty()) {
+		if (header.size() != ncols) {
+			throw std::invalid_argument("Header size does not match the number of columns.");
 		}
-
-		// Write matrix data
-		for (unsigned int row = 0; row < nrows; ++row) {
-			for (unsigned int col = 0; col < ncols; ++col) {
-				outFile << matrix[col * nrows + row];
-				if (col < ncols - 1) {
-					outFile << ",";
-				}
+		for (size_t i = 0; i < header.size(); ++i) {
+			out << header[i];
+			if (i < header.size() - 1) {
+				out << ",";
 			}
-			outFile << "\n";
 		}
+		out << "\n";
+	}
 
-		if (outFile.fail()) {
-			throw std::runtime_error("Failed to write to file: " + filename);
+	// Write matrix data
+	for (unsigned int row = 0; row < nrows; ++row) {
+		for (unsigned int col = 0; col < ncols; ++col) {
+			out << matrix[col * nrows + row];
+			if (col < ncols - 1) {
+				out << ",";
+			}
 		}
-	} catch (...) {
-		outFile.close(); // Ensure file is closed in case of an exception
-		throw;           // Re-throw the caught exception
+		out << "\n";
 	}
 
-	outFile.close();
+	replaceFileContents(filename, out.str());
 }
 
 
diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..64af084 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -30,7 +30,9 @@
  */
 
 #include "./INCLUDE/vector.hpp"
+#include "../INCLUDE/file_output.hpp"
 #include <stdexcept>
+#include <cerrno>
 #include <algorithm>
 #include <iostream>
 #include <cmath>
@@ -647,62 +649,55 @@ vec vec::unitVector(NormType type) const {
 
 
 void vec::appendToCSV(const std::string& filename, int precision) const {
-    // Check if the CSV file exists and has the expected number of columns
+    // Text of the file if it exists
+    std::string text;
+    errno = 0;
     std::ifstream inFile(filename);
+    if (!inFile.is_open() && errno != ENOENT) {
+        throw std::runtime_error("Cannot open file: " + filename);
+    }
     if (inFile.is_open()) {
         std::string line;
-        if (std::getline(inFile, line)) {
-            std::stringstream ss(line);
-            std::string cell;
-            unsigned int columnCount = 0;
-
-            // Count the number of columns in the first line
-            while (std::getline(ss, cell, ',')) {
-                columnCount++;
-            }
-
-            // Validate column count
-            if (columnCount != size) {
+        while (std::getline(inFile, line)) {
+            // Validate the number of columns in the first line
+            if (text.empty() && static_cast<unsigned int>(std::count(line.begin(), line.end(), ',')) + 1 != size) {
                 throw std::runtime_error("Size of vector does not match the number of columns in the CSV file.");
             }
+            text += line + "\n";
+        }
+        if (inFile.bad()) {
+            throw std::runtime_error("Cannot read file: " + filename);
         }
         inFile.close();
     }
 
-    // Open the CSV file in append mode
-    std::ofstream outFile(filename, std::ios::app);
-    if (!outFile.is_open()) {
-        throw std::runtime_error("Cannot open file: " + filename);
-    }
+    std::ostringstream row;
 
     // Set precision for floating-point output
-    outFile << std::fixed << std::setprecision(precision);
+    row << std::fixed << std::setprecision(precision);
 
     // Append vector data as a new row
     for (unsigned int i = 0; i < size; ++i) {
-        outFile << data[i];
+        row << data[i];
         if (i < size - 1) {
-            outFile << ",";
+            row << ",";
         }
     }
-    outFile << "\n";
-    outFile.close();
+    row << "\n";
+    replaceFileContents(filename, text + row.str());
 }
 
 
 void vec::saveToCSV(const std::string& filename) const {
-	std::ofstream outFile(filename);
-	if (!outFile.is_open()) {
-		throw std::runtime_error("Cannot open file: " + filename);
-	}
+	std::ostringstream out;
 
 	for (unsigned int i = 0; i < size; ++i) {
-		outFile << data[i];
+		out << data[i];
 		if (i < size - 1) {
-			outFile << "\n"; // Save each element on a new line
+			out << "\n"; // Save each element on a new line
 		}
 	}
-	outFile.close();
+	replaceFileContents(filename, out.str());
 }
 
 void vec::readFromCSV(const std::string& filename) {
diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..912d080 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -702,7 +702,7 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	std::ofstream outputFileStream(definition.designVectorFilename);
 
 	if (!outputFileStream.is_open()) {
-		abort();
+		throw std::runtime_error("Cannot open the design vector file: " + definition.designVectorFilename);
 	}
 
 	for(unsigned int i=0; i<dim; i++) {
@@ -721,6 +721,10 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	}
 	outputFileStream.close();
 
+	if (outputFileStream.fail()) {
+		throw std::runtime_error("Failed to write the design vector file: " + definition.designVectorFilename);
+	}
+
 }
 
 void ObjectiveFunction::evaluateDesign(Design &d) {
diff --git a/src/Optimizers/globalOptimalDesign.cpp b/src/Optimizers/globalOptimalDesign.cpp
index fc12c47..26e4b86 100644
--- a/src/Optimizers/globalOptimalDesign.cpp
+++ b/src/Optimizers/globalOptimalDesign.cpp
@@ -6,6 +6,7 @@
 #include "./INCLUDE/optimization_logger.hpp"
 #include "../LinearAlgebra/INCLUDE/matrix.hpp"
 #include "../LinearAlgebra/INCLUDE/vector.hpp"
+#include "../INCLUDE/file_output.hpp"
 
 namespace Rodop{
 
@@ -168,14 +169,7 @@ void GlobalOptimalDesign::saveToXMLFile(void) const {
         throw std::runtime_error("XML file name is empty. Cannot save XML.");
     }
 
-    std::ofstream file(xmlFileName);
-    if (!file.is_open()) {
-        throw std::runtime_error("Failed to open the file: " + xmlFileName);
-    }
-
-    std::string text = generateXmlString();
-    file << text;
-    file.close();
+    replaceFileContents(xmlFileName, generateXmlString());
 }
 
 
-- 
2.43.0


From bfab4e848cbd3fb1a8eb6c41c6c1911a8e3a2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 06/47] fix: stop when a new sample could not be added to the
 training data

The failure was only logged, and the study went on with a model and a file that
lacked the sample.
---
 src/SurrogateModels/kriging_training.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 7245140..f8dda8e 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -434,6 +434,7 @@ void KrigingModel::addNewSampleToData(vec newsample) {
 		} catch (const std::exception& e) {
 			// Log the error if writing to CSV or updating the model fails
 			ModelLogger::getInstance().log(ERROR, std::string("Failed to add new sample: ") + e.what());
+			throw;
 		}
 	} else {
 		// Log a warning if the new sample is too close to an existing one
-- 
2.43.0


From 988390c07b72eebaf5ab706d538cb666bf9f530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 07/47] fix: never take an old output file for the result of an
 evaluation

An evaluator that exited successfully without writing its output left the value
of the previous evaluation (or of an earlier study) to be recorded for the new
design. The design was also handed over with only 6 significant digits, so that
the recorded value belonged to another design than the recorded one, possibly
outside the bounds.
---
 .../INCLUDE/objective_function.hpp               |  2 ++
 src/ObjectiveFunctions/constraint_functions.cpp  |  1 +
 src/ObjectiveFunctions/objective_function.cpp    | 16 ++++++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/src/ObjectiveFunctions/INCLUDE/objective_function.hpp b/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
index afd8772..14782ac 100644
--- a/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
+++ b/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
@@ -106,6 +106,8 @@ private:
 
 protected:
 
+	void removeOutputFile(void) const;
+
 	bool doesObjectiveFunctionPtrExist = false;
 	std::string evaluationMode;
 	std::string addDataMode;
diff --git a/src/ObjectiveFunctions/constraint_functions.cpp b/src/ObjectiveFunctions/constraint_functions.cpp
index 52deb44..2c8d421 100644
--- a/src/ObjectiveFunctions/constraint_functions.cpp
+++ b/src/ObjectiveFunctions/constraint_functions.cpp
@@ -208,6 +208,7 @@ void ConstraintFunction::validateDesignParameters(const Design &d) const {
 
 void ConstraintFunction::evaluateObjectiveUsingExternalExecutable(Design &d) {
     writeDesignVariablesToFile(d);
+    removeOutputFile();
 
     // Execute the objective function
     evaluateObjectiveFunction();
diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 912d080..6680d0d 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -34,6 +34,8 @@
 #include <stdlib.h>
 #include <iostream>
 #include <unistd.h>
+#include <cerrno>
+#include <limits>
 #include <cassert>
 #include <algorithm>  // Include this for std::find
 #include <stdexcept>  // For std::invalid_argument
@@ -694,6 +696,15 @@ vec ObjectiveFunction::readOutput(const std::string &filename, unsigned int howM
 
 
 
+/* The output of an earlier evaluation must not be taken for the result of the next one. */
+void ObjectiveFunction::removeOutputFile(void) const{
+
+	if (!definition.executableName.empty()
+			&& std::remove(definition.outputFilename.c_str()) != 0 && errno != ENOENT) {
+		throw std::runtime_error("Cannot remove the old output file: " + definition.outputFilename);
+	}
+}
+
 void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 
 	assert(d.designParameters.getSize() == dim);
@@ -705,6 +716,9 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 		throw std::runtime_error("Cannot open the design vector file: " + definition.designVectorFilename);
 	}
 
+	/* the evaluation must be done at exactly the design that will be recorded */
+	outputFileStream.precision(std::numeric_limits<double>::max_digits10);
+
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
@@ -741,6 +755,8 @@ void ObjectiveFunction::evaluateDesign(Design &d) {
 		// Write design variables to a file
 		writeDesignVariablesToFile(d);
 
+		removeOutputFile();
+
 		// Log the evaluation process
 
 		printInfoToLog("Evaluating objective function via external execution.");
-- 
2.43.0


From bc0085f96aedbab5769435bcae2a696a4e65caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 08/47] fix: reject incomplete rows, damaged numbers and
 unreadable files

A row of a population file that was cut short was completed with copies of its
last number, text following a number (as in two fused rows) was ignored, and a
file that could not be read to its end counted as shorter.
---
 src/InternalOptimizers/ea_population.cpp | 25 ++++++++++++------------
 src/LinearAlgebra/matrix.cpp             |  9 ++++++++-
 src/LinearAlgebra/vector.cpp             |  5 ++++-
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index bda2c44..514fdb1 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -257,39 +257,38 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 	}
 
 	while (std::getline(inFile, line)) {
+		// every row ends with a newline if the file is complete
+		if (inFile.eof()) {
+			throw std::runtime_error("Incomplete last row in CSV");
+		}
 		std::stringstream ss(line);
 		std::string token;
 
 		// Read ID
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing ID value in CSV");
 		}
 		unsigned int id = std::stoi(token);
 		// Read objective function value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing objective function value in CSV");
 		}
 		double objectiveFunctionValue = std::stod(token);
 
 		// Read fitness value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing fitness value in CSV");
 		}
 		double fitnessValue = std::stod(token);
 
 		// Read reproduction probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing reproduction probability in CSV");
 		}
 		double reproductionProbability = std::stod(token);
 
 		// Read death probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing death probability in CSV");
 		}
 		double deathProbability = std::stod(token);
@@ -297,8 +296,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		// Read genes
 		std::vector<double> genes;
 		for (unsigned int i = 0; i < dimension; ++i) {
-			std::getline(ss, token, ',');
-			if (token.empty()) {
+			if (!std::getline(ss, token, ',') || token.empty()) {
 				throw std::runtime_error("Missing gene value in CSV");
 			}
 			genes.push_back(std::stod(token));
@@ -324,6 +322,9 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		addIndividual(individual);
 	}
 
+	if (inFile.bad()) {
+		throw std::runtime_error("Cannot read file: " + filename);
+	}
 	inFile.close();
 
 }
diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index f4b6020..e57fe96 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1003,12 +1003,19 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		std::vector<double> row;
 
 		while (std::getline(ss, value, ',')) {
-			row.push_back(std::stod(value));
+			std::size_t numberOfCharactersRead = 0;
+			row.push_back(std::stod(value, &numberOfCharactersRead));
+			if (value.find_first_not_of(" \t\r", numberOfCharactersRead) != std::string::npos) {
+				throw std::runtime_error("Invalid value in file " + filename + ": " + value);
+			}
 		}
 
 		data.push_back(row);
 	}
 
+	if (file.bad()) {
+		throw std::runtime_error("Cannot read file: " + filename);
+	}
 	file.close();
 
 	if (data.empty()) {
diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 64af084..6077a83 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -711,11 +711,14 @@ void vec::readFromCSV(const std::string& filename) {
 	while (std::getline(inFile, line)) {
 		std::istringstream ss(line);
 		double value;
-		if (!(ss >> value)) {
+		if (!(ss >> value) || !(ss >> std::ws).eof()) {
 			throw std::runtime_error("Invalid data in CSV file.");
 		}
 		tempData.push_back(value);
 	}
+	if (inFile.bad()) {
+		throw std::runtime_error("Cannot read file: " + filename);
+	}
 	inFile.close();
 
 	// Resize vector to fit new data and copy data
-- 
2.43.0


From 271d3cbcf0db5e4fb36ca80c5b63ba9d1b167249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 09/47] fix: keep the number of training iterations, and give
 each training thread its own random engine

Training divided the member numberOfTrainingIterations by the number of threads, so that each
further training did less work and, once it reached zero, none at all. The random engines of the
evolutionary optimiser were shared by the training threads without synchronisation. A failed
factorisation was reported as the smallest validation error.
---
 src/InternalOptimizers/INCLUDE/ea_individual.hpp | 2 +-
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_individual.cpp         | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 src/SurrogateModels/kriging_training.cpp         | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_individual.hpp b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
index f48f5e7..68cba32 100644
--- a/src/InternalOptimizers/INCLUDE/ea_individual.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
@@ -22,7 +22,7 @@ private:
 	unsigned int dimension = 0;
 	vec genes;
 
-	static std::mt19937 rng;
+	static thread_local std::mt19937 rng;
 
 public:
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 0807406..1fa4f67 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -14,7 +14,7 @@ class EAPopulation{
 
 private:
 
-	static std::mt19937 gen;
+	static thread_local std::mt19937 gen;
 
 	std::vector<EAIndividual> population;
 
diff --git a/src/InternalOptimizers/ea_individual.cpp b/src/InternalOptimizers/ea_individual.cpp
index e5b5949..a613c2b 100644
--- a/src/InternalOptimizers/ea_individual.cpp
+++ b/src/InternalOptimizers/ea_individual.cpp
@@ -9,7 +9,7 @@ using namespace std;
 
 namespace Rodop{
 
-std::mt19937 EAIndividual::rng(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAIndividual::rng(std::random_device{}());
 
 
 EAIndividual::EAIndividual(){}
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 514fdb1..1cbbfea 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -15,7 +15,7 @@
 using namespace std;
 namespace Rodop{
 
-std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAPopulation::gen(std::random_device{}());
 
 void EAPopulation::setDimension(unsigned int value){
 
diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index f8dda8e..33a1feb 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -640,7 +640,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // Return the largest possible error if factorization fails
 	}
 
 	return calculateValidationError();
@@ -736,8 +736,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		const unsigned int numberOfIterationsPerThread = std::max(numberOfTrainingIterations / numberOfThreads, 1u);
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -754,7 +754,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
-- 
2.43.0


From 34cc8bb4869acc00e60514084cbd19946a434308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 10/47] fix: mark designs outside the box infeasible in
 unconstrained studies too

Initial samples outside the box constraints were reported as the optimum when the study had no
constraints.
---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index b8aa699..275f1e5 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1079,7 +1079,8 @@ void Optimizer::setOptimizationHistoryDataFeasibilityValues(mat &historyData) co
 	}
 	else{
 		for (unsigned int i = 0; i < N; ++i) {
-			historyData(i, nCols - 1) = 1.0;
+			vec dv = historyData.getRow(i).head(dimension);
+			historyData(i, nCols - 1) = checkIfBoxConstraintsAreSatisfied(dv) ? 1.0 : 0.0;
 		}
 	}
 
-- 
2.43.0


From 1ee492ae20bfcb8cbdb9951e24533b849cbfbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 11/47] fix: treat a not-a-number value in the design of
 experiments as a failed evaluation

---
 src/API/cppAPI.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..55b9224 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -6,6 +6,7 @@
 #include "../Bounds/INCLUDE/bounds.hpp"
 #include <filesystem>
 #include <algorithm>
+#include <cmath>
 
 #if defined(_WIN32) || defined(_WIN64)
 #include <direct.h>
@@ -293,6 +294,9 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
             try {
                 // Evaluate the constraint function
                 double f = constraintFunctionPtr[iConstraint](x.getPointer());
+                if (std::isnan(f)) {
+                    throw std::runtime_error("NaN is returned by the constraint function.");
+                }
 
                 // Add the constraint result to the sample data
                 vec sample = x;
@@ -353,6 +357,9 @@ void RobustDesignOptimizer::performDoE(void) {
 		try {
 			// Try to evaluate the objective function
 			functionValues(i) = objectiveFunctionPtr(x.getPointer());
+			if (std::isnan(functionValues(i))) {
+				throw std::runtime_error("NaN is returned by the objective function.");
+			}
 		} catch (const std::exception& e) {
 			// Handle the exception, possibly logging the error and rethrowing it
 			std::cerr << "Error evaluating the objective function at sample " << i << ": " << e.what() << std::endl;
-- 
2.43.0


From c26ad0683ed4573346c060cf7a99ed371c2455bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 12/47] fix: keep some hyper-parameters when no candidate could
 be judged

With constant data every likelihood is undefined; the training then had no solution and ended the
study with "Head size is out of range".
---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 33a1feb..3bcb360 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -770,7 +770,7 @@ void KrigingModel::train() {
 			{
 				double bestSolutionLikelihood = threadBestSolution.getObjectiveFunctionValue();
 				ModelLogger::getInstance().log(INFO, "Best likelihood at local thread = " + std::to_string(bestSolutionLikelihood));
-				if (bestSolutionLikelihood < globalBestError) {
+				if (bestSolution.getSize() == 0 || bestSolutionLikelihood < globalBestError) {
 					bestSolution = optimizedHyperParameters;
 					globalBestError = bestSolutionLikelihood;
 				}
-- 
2.43.0


From 664b6a7c7b34bc5c91f7147526067aa87b518ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 13/47] fix: allocate before freeing when a vector or matrix is
 assigned

---
 src/LinearAlgebra/matrix.cpp | 17 +++++++++--------
 src/LinearAlgebra/vector.cpp |  8 +++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index e57fe96..92abe2a 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -108,12 +108,14 @@ mat& mat::operator=(const mat& other) {
 		return *this; // Handle self-assignment
 	}
 
-	delete[] matrix; // Free the existing resource
+	// Allocate first: if the allocation fails, the matrix keeps its contents
+	double* newMatrix = new double[other.nrows * other.ncols];
+	std::copy(other.matrix, other.matrix + other.nrows * other.ncols, newMatrix);
 
+	delete[] matrix; // Free the existing resource
+	matrix = newMatrix;
 	nrows = other.nrows;
 	ncols = other.ncols;
-	matrix = new double[nrows * ncols];
-	std::copy(other.matrix, other.matrix + nrows * ncols, matrix);
 
 	return *this;
 }
@@ -1022,13 +1024,12 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		throw std::runtime_error("No data found in file: " + filename);
 	}
 
-	// Determine the number of rows and columns
-	nrows = data.size();
-	ncols = data[0].size();
-
 	// Allocate memory for the matrix
+	double* newMatrix = new double[data.size() * data[0].size()];
 	delete[] matrix;  // Free the old matrix if it exists
-	matrix = new double[nrows * ncols];
+	matrix = newMatrix;
+	nrows = data.size();
+	ncols = data[0].size();
 
 	// Fill the matrix with data from the vector
 	for (unsigned int i = 0; i < nrows; ++i) {
diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 6077a83..30166c2 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -73,11 +73,13 @@ vec& vec::operator=(const vec& other) {
 		return *this; // Handle self-assignment
 	}
 
-	delete[] data;
+	// Allocate first: if the allocation fails, the vector keeps its contents
+	double* newData = new double[other.size];
+	copyData(other.data, newData, other.size);
 
+	delete[] data;
+	data = newData;
 	size = other.size;
-	data = new double[other.size];
-	copyData(other.data, data, other.size);
 
 	return *this;
 }
-- 
2.43.0


From 43476a0e3b3d82453ecbc9036ee7376a209dc5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 14/47] fix: do not go on without constraints or with an
 untrained constraint model

---
 src/Driver/driver_xml.cpp                            | 11 +++++++++--
 src/Optimizers/optimization_constraint_functions.cpp |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..1f9ca7f 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1027,6 +1027,10 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 	std::stringstream buffer;
 	buffer << file.rdbuf(); // Read the entire file into the stringstream
 
+	if (file.bad() || buffer.fail()) {
+		throw std::runtime_error("Failed to read file: " + configFilename);
+	}
+
 	std::string filetext =  buffer.str(); // Convert stringstream to std::string and return
 
 
@@ -1045,8 +1049,7 @@ std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
-		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		throw std::runtime_error("Failed to open file: " + configFilename);
 	}
 
 	// Read the file line by line
@@ -1073,6 +1076,10 @@ std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
 		}
 	}
 
+	if (file.bad()) {
+		throw std::runtime_error("Failed to read file: " + configFilename);
+	}
+
 	file.close();  // Close the file when done
 	return constraintFunctions;
 }
diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index f6c776c..6069ad4 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -145,6 +145,7 @@ void Optimizer::trainSurrogatesForConstraints() {
             printInfoToLog("Training for constraint #" + std::to_string(index) + " completed successfully.");
         } catch (const std::exception& e) {
             printInfoToLog("Error training surrogate model for constraint #" + std::to_string(index) + ": " + e.what());
+            throw;
         }
 
         ++index;
-- 
2.43.0


From 93d9f65198057bf37b39ef8bceeeb91e83138d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 15/47] fix: reject a population file that ends inside its
 header

---
 src/InternalOptimizers/ea_population.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 1cbbfea..ba63e44 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -252,7 +252,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 	std::string line;
 
 	// Skip the header line
-	if (!std::getline(inFile, line)) {
+	if (!std::getline(inFile, line) || inFile.eof()) {
 		throw std::runtime_error("Failed to read header line from CSV file");
 	}
 
-- 
2.43.0


From ee8fca31d60117f037e69e0d979cc4c201423a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 16/47] fix: use the name of the training data file given
 through the API

---
 src/API/cppAPI.cpp                      | 5 ++++-
 src/Optimizers/INCLUDE/optimization.hpp | 1 +
 src/Optimizers/optimization.cpp         | 7 +++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 55b9224..a4e5c65 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -114,7 +114,10 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
+	if(isObjectiveFunctionSpecified){
+		optimizer.setFileNameTrainingDataOfObjectiveFunction(filename);
+	}
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
diff --git a/src/Optimizers/INCLUDE/optimization.hpp b/src/Optimizers/INCLUDE/optimization.hpp
index f3d0df4..66c2a55 100644
--- a/src/Optimizers/INCLUDE/optimization.hpp
+++ b/src/Optimizers/INCLUDE/optimization.hpp
@@ -369,6 +369,7 @@ public:
 	bool checkConstraintFeasibility(const vec& constraintValues) const;
 
 	void addObjectFunction(ObjectiveFunction &);
+	void setFileNameTrainingDataOfObjectiveFunction(const std::string &filename);
 
 
 	void addPenaltyToAcqusitionFunctionForConstraints(DesignForBayesianOptimization &) const;
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 275f1e5..6baf689 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -119,6 +119,13 @@ void Optimizer::addObjectFunction(ObjectiveFunction &objFunc){
 
 
 
+void Optimizer::setFileNameTrainingDataOfObjectiveFunction(const std::string &filename){
+
+	objFun.setFileNameTrainingData(filename);
+
+}
+
+
 bool Optimizer::checkBoxConstraints(void) const{
 
 	for(unsigned int i=0; i<dimension; i++) {
-- 
2.43.0


From f1cf778b29e2da507e3c68bd36bd90d8ef670710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 17/47] fix: let box constraints set a second time through the
 API replace the first

---
 src/API/cppAPI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index a4e5c65..d225295 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -89,6 +89,9 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 		throw std::invalid_argument("Problem dimension is not specified");
 	}
 
+	lowerBounds.clear();
+	upperBounds.clear();
+
 	for(unsigned int i=0;i<dimension; i++){
 		if(lb[i] >= ub[i]){
 			throw std::invalid_argument("Box constraints are not set properly");
-- 
2.43.0


From 58aea2e7c8795a213992dc6b4d7f823cd1a4cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 18/47] fix: reject parameters without bounds and discrete
 parameters without increment

---
 src/Driver/driver_xml.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 1f9ca7f..437af88 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -506,11 +506,16 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		if (getStringValueFromXML(param, "lower_bound").empty() || getStringValueFromXML(param, "upper_bound").empty()) {
+			DriverLogger::getInstance().log(ERROR, "Parameter bounds are missing for parameter: " + name);
+			throw std::runtime_error("Driver::readOptimizationParameters: 'lower_bound' and 'upper_bound' must be given for parameter: " + name);
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
 		// Check that lower_bound is less than or equal to upper_bound
-		if (lb > ub) {
+		if (!(lb <= ub)) {
 			DriverLogger::getInstance().log(ERROR, "Invalid bounds for parameter '" + name + "': lower_bound > upper_bound.");
 			throw std::runtime_error("Driver::readOptimizationParameters: 'lower_bound' > 'upper_bound' for parameter: " + name);
 		}
@@ -520,7 +525,7 @@ void Driver::readOptimizationParameters() {
 		// Special handling for discrete and int types
 		if (type == "discrete" || type == "int") {
 			// Ensure the increment is defined, greater than 0, and less than or equal to ub - lb
-			if (inc <= 0 || inc > (ub - lb)) {
+			if (getStringValueFromXML(param, "increment").empty() || !(inc > 0) || inc > (ub - lb)) {
 				DriverLogger::getInstance().log(ERROR, "Invalid increment for 'discrete' or 'int' parameter '" + name + "': increment must be > 0 and <= (upper_bound - lower_bound).");
 				throw std::runtime_error("Driver::readOptimizationParameters: Invalid increment for 'discrete' or 'int' parameter: " + name);
 			}
-- 
2.43.0


From bb1122330b3c20c0ce0d987841f33738e7bb5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 19/47] fix: reject a constraint without an executable before
 anything is evaluated

---
 src/Driver/driver_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 437af88..2425af0 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -347,7 +347,8 @@ void Driver::setConstraintExecutableFilename(
 	string executableName = getConfigKeyValueString(keywordsConstraintFunction,
 			"executable_filename");
 	if (executableName.empty()) {
-		DriverLogger::getInstance().log(WARNING, "Executable name is missing. You may need to check the configuration file");
+		throw std::invalid_argument(
+				"Executable name of a constraint is missing. Check configuration file");
 	}
 	definition.executableName = executableName;
 }
-- 
2.43.0


From d30eb102f73c13b0811b9ec01a8beebf5acea162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 20/47] fix: reject numbers in the configuration that are
 followed by something else

---
 src/Driver/driver_xml.cpp    |  6 +++++-
 src/Driver/xml_functions.cpp | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 2425af0..b6bb3ea 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -292,7 +292,11 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	}
 	double value = 0.0;
 	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
+		size_t end = 0;
+		value = std::stod(constraint_value, &end); // Attempt to convert string to double
+		if (end != constraint_value.length()) {
+			throw std::invalid_argument("Not a number: " + constraint_value);
+		}
 
 	} catch (const std::invalid_argument& e) {
 		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..7a4e499 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -133,7 +133,11 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	double value;
 	try
 	{
-		value = std::stod(valueString);
+		size_t end = 0;
+		value = std::stod(valueString, &end);
+		if (end != valueString.length()) {
+			throw std::invalid_argument("Not a number: " + valueString);
+		}
 	}
 	catch (...)
 	{
@@ -211,7 +215,12 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 
 	try
 	{
-		value = std::stoi(valueString);
+		size_t end = 0;
+		valueString = removeSpacesFromString(valueString);
+		value = std::stoi(valueString, &end);
+		if (end != valueString.length()) {
+			throw std::invalid_argument("Not an integer: " + valueString);
+		}
 	}
 	catch (...)
 	{
-- 
2.43.0


From e830557731ed5344c5d0cadada127d981127854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 21/47] fix: accept GT, not TT, as the type of a constraint

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index b6bb3ea..4767273 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -270,7 +270,7 @@ void Driver::setConstraintType(ConstraintDefinition &constraintDefinition) {
 	if (isEqual(constraint_type, "lt") || isEqual(constraint_type, "LT")) {
 		constraintDefinition.inequalityType = "<";
 	} else if (isEqual(constraint_type, "gt")
-			|| isEqual(constraint_type, "TT")) {
+			|| isEqual(constraint_type, "GT")) {
 		constraintDefinition.inequalityType = ">";
 	} else {
 
-- 
2.43.0


From cab774c1f2d2c77165319b664d4d8589f4f1c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 22/47] fix: use the number of training iterations given for a
 constraint

---
 src/Driver/driver_xml.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 4767273..525125f 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -322,9 +322,14 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
+
+	if(numberOfTrainingIterations == NONEXISTINGINTKEYWORD){
+		numberOfTrainingIterations = getConfigKeyValueInt(
+				keywordsObjectiveFunction, "number_of_training_iterations");
+	}
 
-	if(numberOfTrainingIterations != -10000000){
+	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
-- 
2.43.0


From 9704ca3782fd05aa26409882896a7f4842e5d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 23/47] fix: keep samples without a constraint value infeasible
 when the limit is very large

---
 src/Optimizers/optimization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 6baf689..ac8d5eb 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -976,9 +976,9 @@ void Optimizer::setOptimizationHistoryConstraintsData(mat& historyData) const {
 				} else {
 					printInfoToLog("Row is not found in the objective function training data. \n x = " + input.toString() + "\n");
 					if (type == ">") {
-						historyData(i, dimension + ID + 1) = -1e15;
+						historyData(i, dimension + ID + 1) = std::min(-1e15, 2.0 * constraint.getInequalityTargetValue());
 					} else if (type == "<") {
-						historyData(i, dimension + ID + 1) = 1e15;
+						historyData(i, dimension + ID + 1) = std::max(1e15, 2.0 * constraint.getInequalityTargetValue());
 					}
 				}
 			}
-- 
2.43.0


From 703feebf40e4deeb8675ca035338b6633c1dc531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 24/47] fix: refuse surrogate model types that are not
 implemented instead of crashing

---
 src/ObjectiveFunctions/INCLUDE/objective_function.hpp | 2 +-
 src/ObjectiveFunctions/objective_function.cpp         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/INCLUDE/objective_function.hpp b/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
index 14782ac..ebdc504 100644
--- a/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
+++ b/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
@@ -115,7 +115,7 @@ protected:
 	ObjectiveFunctionDefinition definition;
 	Bounds boxConstraints;
 	KrigingModel surrogateModel;
-	SurrogateModel *surrogate;
+	SurrogateModel *surrogate = nullptr;
 
 	unsigned int numberOfIterationsForSurrogateTraining = 10000;
 	unsigned int dim = 0;
diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 6680d0d..e184dc2 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -240,6 +240,9 @@ void ObjectiveFunction::bindSurrogateModelSingleFidelity() {
 	if (definition.modelHiFi == UNIVERSAL_KRIGING) {
 		bindWithUniversalKrigingModel();
 	}
+	if (surrogate == nullptr) {
+		throw std::runtime_error("The type of the surrogate model is not supported: " + definition.name);
+	}
 
 }
 
-- 
2.43.0


From a20936914ec4685a5669274b8f950a6d8b20952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 25/47] fix: reject numbers of threads and iterations that are
 not positive

---
 src/Driver/driver_xml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 525125f..bf03b4a 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -214,6 +214,10 @@ void Driver::setObjectiveFunctionNumberOfTrainingIterations() {
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument(
+					"number_of_training_iterations must be a positive integer. Check configuration file");
+		}
 		objectiveFunction.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 	}
@@ -331,6 +335,10 @@ void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constra
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument(
+					"number_of_training_iterations must be a positive integer. Check configuration file");
+		}
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 
@@ -610,6 +618,10 @@ void Driver::setMaxNumberOfInnerIterationsOptimizationStudy(void) {
 	int maxiter = getConfigKeyValueInt(keywordsGeneral, "max_number_of_inner_iterations");
 
 	if(maxiter != -10000000){
+		if (maxiter <= 0) {
+			throw std::invalid_argument(
+					"max_number_of_inner_iterations must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setMaximumNumberOfInnerIterations(maxiter);
 	}
 
@@ -622,6 +634,10 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 	if(N != -10000000){
 
+		if (N <= 0) {
+			throw std::invalid_argument(
+					"number_of_threads must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setNumberOfThreads(N);
 	}
 
-- 
2.43.0


From 0d217a1a175dcfbd0e8694863631ff577266dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 26/47] fix: reject infinite parameter bounds

---
 src/Driver/driver_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index bf03b4a..36467a2 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -4,6 +4,7 @@
 #include "./INCLUDE/string_functions.hpp"
 #include "../INCLUDE/globals.hpp"
 
+#include <cmath>
 #include <map>
 using namespace std;
 
@@ -533,7 +534,7 @@ void Driver::readOptimizationParameters() {
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
 		// Check that lower_bound is less than or equal to upper_bound
-		if (!(lb <= ub)) {
+		if (!(lb <= ub) || std::isinf(lb) || std::isinf(ub)) {
 			DriverLogger::getInstance().log(ERROR, "Invalid bounds for parameter '" + name + "': lower_bound > upper_bound.");
 			throw std::runtime_error("Driver::readOptimizationParameters: 'lower_bound' > 'upper_bound' for parameter: " + name);
 		}
-- 
2.43.0


From ba92e204da20b89e89365b218c51fbd7ecbdad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 27/47] fix: reject a constraint section that is not closed

---
 src/Driver/driver_xml.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 36467a2..e257e5f 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1092,6 +1092,9 @@ std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
 
 		// Start of a constraint function
 		if (line.find("<constraint_function>") != std::string::npos) {
+			if (insideConstraintFunction) {
+				throw std::runtime_error("A <constraint_function> section is not closed: " + configFilename);
+			}
 			insideConstraintFunction = true;
 			currentConstraintFunction.clear();
 		}
@@ -1112,6 +1115,10 @@ std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
 		throw std::runtime_error("Failed to read file: " + configFilename);
 	}
 
+	if (insideConstraintFunction) {
+		throw std::runtime_error("A <constraint_function> section is not closed: " + configFilename);
+	}
+
 	file.close();  // Close the file when done
 	return constraintFunctions;
 }
-- 
2.43.0


From e940a25cce733ee6a0918dfaa618bf149feb1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 28/47] fix: keep an upper bound that is on the grid of a
 discrete parameter

---
 src/Optimizers/optimization.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index ac8d5eb..155363b 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1368,11 +1368,12 @@ int Optimizer::findClosestDiscreteValue(double value, const vec& discreteValues)
 }
 
 vec Optimizer::generateDiscreteValues(unsigned int index, double dx) const {
-	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx) + 1;
+	// The small number keeps the rounding of the division from losing an upper bound which is on the grid
+	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx + 1e-9) + 1;
 	vec discreteValues(numDiscreteValues);
 
 	for (unsigned int k = 0; k < numDiscreteValues; ++k) {
-		discreteValues(k) = lowerBounds(index) + k * dx;
+		discreteValues(k) = std::min(lowerBounds(index) + k * dx, upperBounds(index));
 	}
 
 	return discreteValues;
-- 
2.43.0


From 538f2157b5615b7c782235d370d3040e7930d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 29/47] fix: read constraint sections whatever their line
 breaks are

---
 src/Driver/driver_xml.cpp | 50 ++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index e257e5f..8393e80 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1073,53 +1073,39 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
+	const std::string startTag = "<constraint_function>";
+	const std::string endTag = "</constraint_function>";
 	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
 		throw std::runtime_error("Failed to open file: " + configFilename);
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
+	// The sections may be laid out in any way, on one line or on several ones
+	std::stringstream buffer;
+	buffer << file.rdbuf();
 
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			if (insideConstraintFunction) {
-				throw std::runtime_error("A <constraint_function> section is not closed: " + configFilename);
-			}
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
+	if (file.bad() || buffer.fail()) {
+		throw std::runtime_error("Failed to read file: " + configFilename);
+	}
 
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
-		}
+	const std::string text = buffer.str();
+	std::size_t start = text.find(startTag);
 
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
-		}
-	}
+	while (start != std::string::npos) {
+		std::size_t content = start + startTag.length();
+		std::size_t end = text.find(endTag, content);
 
-	if (file.bad()) {
-		throw std::runtime_error("Failed to read file: " + configFilename);
-	}
+		if (end == std::string::npos || text.find(startTag, content) < end) {
+			throw std::runtime_error("A <constraint_function> section is not closed: " + configFilename);
+		}
 
-	if (insideConstraintFunction) {
-		throw std::runtime_error("A <constraint_function> section is not closed: " + configFilename);
+		constraintFunctions.push_back(text.substr(content, end - content));
+		start = text.find(startTag, end + endTag.length());
 	}
 
-	file.close();  // Close the file when done
 	return constraintFunctions;
 }
 
-- 
2.43.0


From fa5efac4d509d32498e24e79308fcedb3436128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 30/47] fix: refuse box constraints that are not finite in the
 API

---
 src/API/cppAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index d225295..1f8b1b1 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -93,7 +93,7 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 	upperBounds.clear();
 
 	for(unsigned int i=0;i<dimension; i++){
-		if(lb[i] >= ub[i]){
+		if(!std::isfinite(lb[i]) || !std::isfinite(ub[i]) || lb[i] >= ub[i]){
 			throw std::invalid_argument("Box constraints are not set properly");
 
 		}
-- 
2.43.0


From 7f827a2ec0867d731e8bf1449f749733505929bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 31/47] fix: refuse text after the number of a constraint
 expression in the API

---
 src/API/cppAPI.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 1f8b1b1..6dbabdc 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -200,6 +200,12 @@ ParsedConstraintExpression parseExpression(const std::string& input) {
 		throw std::invalid_argument("Failed to parse the floating point number from expression: '" + input + "'");
 	}
 
+	// Nothing may follow the number
+	std::string rest;
+	if (stream >> rest) {
+		throw std::invalid_argument("Unexpected text after the number in expression: '" + input + "'");
+	}
+
 	return result;
 }
 
-- 
2.43.0


From c083c9ef37ba911d403da4dde61e595263998b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 32/47] fix: API calls in another order are honoured, or
 refused before anything is evaluated

---
 src/API/cppAPI.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 6dbabdc..dd24899 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -125,6 +125,10 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
 
+	if(dim != dimension && (isObjectiveFunctionSpecified || numberOfConstraints > 0 || areBoxConstraintsSpecified)){
+		throw std::invalid_argument("Problem dimension cannot be changed any more");
+	}
+
 	dimension = dim;
 	optimizer.setDimension(dimension);
 	isDimensionSpecified = true;
@@ -148,6 +152,10 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 	}
 
 
+	if(dimension == 0){
+		throw std::invalid_argument("Problem dimension is not specified");
+	}
+
 	objectiveFunctionPtr = function;
 
 	ObjectiveFunction objectiveFunctionToAdd;
@@ -226,6 +234,10 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Null function pointer provided.");
 	}
 
+	if (dimension == 0) {
+		throw std::invalid_argument("Problem dimension is not specified");
+	}
+
 	// Parse the constraint expression
 	ParsedConstraintExpression exp = parseExpression(expression);
 
@@ -419,6 +431,12 @@ void RobustDesignOptimizer::run(void){
 
 	checkOptimizationSettings();
 
+	// Functions may have been added after the box constraints were set
+	Bounds boxConstraints;
+	boxConstraints.setDimension(dimension);
+	boxConstraints.setBounds(lowerBounds,upperBounds);
+	optimizer.setBoxConstraints(boxConstraints);
+
 	if(!changeDirectory(cwd)){
 
 		throw std::invalid_argument("Cannot change to current working directory");
-- 
2.43.0


From b53999fd37c9e810ab6e260339f20fc0639fc058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 33/47] sim: observation point at the end of a candidate search
 (RODEO_SIM, off by default)

---
 src/INCLUDE/sim_hooks.hpp       | 3 +++
 src/Optimizers/optimization.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/INCLUDE/sim_hooks.hpp b/src/INCLUDE/sim_hooks.hpp
index 24af655..486ccbd 100644
--- a/src/INCLUDE/sim_hooks.hpp
+++ b/src/INCLUDE/sim_hooks.hpp
@@ -6,11 +6,14 @@
 
 #ifdef RODEO_SIM
 
+namespace Rodop{ class Optimizer; }
+
 namespace RodeoSim{
 
 void acquisitionCandidate(const double *dv, unsigned int dim, double value);
 void acquisitionSelected(const double *dv, unsigned int dim, double value);
 void acquisitionRefined(const double *dv, unsigned int dim, double valueBefore, double valueAfter);
+void searchFinished(const Rodop::Optimizer &optimizer);
 void hyperParameterCandidate(const double *parameters, unsigned int dim, double value);
 
 }
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 155363b..2f1263b 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -789,6 +789,7 @@ void Optimizer::findTheMostPromisingDesignEGO(void){
 	printInfoToLog(designWithMaxAcqusition.toString());
 
 	RODEO_SIM_HOOK(RodeoSim::acquisitionSelected(designWithMaxAcqusition.dv.getPointer(), dimension, designWithMaxAcqusition.valueAcquisitionFunction);)
+	RODEO_SIM_HOOK(RodeoSim::searchFinished(*this);)
 
 	theMostPromisingDesigns.push_back(designWithMaxAcqusition);
 	numberOfGlobalSearchSteps++;
-- 
2.43.0


From 2a1a6a366f0d4ab6ccd5305443a442a3c1d93377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 34/47] fix: refuse constraint limits that are not finite

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 8393e80..b3ad4d8 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -299,7 +299,7 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	try {
 		size_t end = 0;
 		value = std::stod(constraint_value, &end); // Attempt to convert string to double
-		if (end != constraint_value.length()) {
+		if (end != constraint_value.length() || !std::isfinite(value)) {
 			throw std::invalid_argument("Not a number: " + constraint_value);
 		}
 
-- 
2.43.0


From 23d03366302865f686b4fa6c62bafc4ff6a2db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 35/47] fix: an ordinary Kriging model tested after a universal
 one has no linear part

---
 src/SurrogateModels/surrogate_model_tester.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index 66c3eba..bcd8446 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -66,6 +66,7 @@ void SurrogateModelTester::bindSurrogateModels(void){
 		}
 		if(surrogateModelType == ORDINARY_KRIGING){
 			ModelLogger::getInstance().log(INFO, "Model Tester: Ordinary Kriging...");
+			krigingModel.setLinearRegressionOff();
 			surrogateModel = &krigingModel;
 		}
 		if(surrogateModelType == UNIVERSAL_KRIGING){
-- 
2.43.0


From 3df79f0ef4ea903f20489a3c5488b6cd996fbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 36/47] fix: model test without a model, or with an invalid
 validation ratio, ends with an error

---
 .../INCLUDE/surrogate_model_tester.hpp                |  2 +-
 src/SurrogateModels/surrogate_model_data.cpp          |  2 +-
 src/SurrogateModels/surrogate_model_tester.cpp        | 11 +++++++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
index 8f9c058..5de5483 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
@@ -27,7 +27,7 @@ private:
 	KrigingModel krigingModel;
 
 
-	SurrogateModel *surrogateModel;
+	SurrogateModel *surrogateModel = nullptr;
 
 	SURROGATE_MODEL surrogateModelType;
 
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..65e69d1 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -571,7 +571,7 @@ vec SurrogateModelData::getOutputVectorTest(void) const{
 
 
 void SurrogateModelData::setValidationRatio(double val){
-	if(val<0.0 || val>1.0){
+	if(!(val>=0.0 && val<=1.0)){
 		throw std::invalid_argument("SurrogateModelData: Ratio of validation samples must be between 0 and 1.");
 	}
 	ratioValidationData = val;
diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index bcd8446..f02100e 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -38,7 +38,11 @@ void SurrogateModelTester::setSurrogateModel(SURROGATE_MODEL modelType){
 
 void SurrogateModelTester::setRatioValidationSamples(double value){
 
-	if(value<0 && value > 1.0){
+	if(!ifbindSurrogateModelisDone){
+		ModelLogger::getInstance().log(ERROR, "Model Tester: Surrogate model must be set first.");
+		throw std::runtime_error("Model Tester: Surrogate model must be set first.");
+	}
+	if(!(value >= 0.0 && value <= 1.0)){
 		ModelLogger::getInstance().log(ERROR, "Model Tester: Validation samples ration is not valid.");
 		throw std::invalid_argument("Model Tester: Validation samples ration is not valid.");
 	}
@@ -105,7 +109,10 @@ void SurrogateModelTester::performSurrogateModelTest(void){
 
 	checkBoxConstraints();
 
-	assert(ifbindSurrogateModelisDone);
+	if(!ifbindSurrogateModelisDone){
+		ModelLogger::getInstance().log(ERROR, "Model Tester: Surrogate model must be set first.");
+		throw std::runtime_error("Model Tester: Surrogate model must be set first.");
+	}
 	assert(!name.empty());
 	assert(dimension>0);
 	checkFilename(fileNameTraingData);
-- 
2.43.0


From 005651bbdada228d49a18192dfdddb3271a3400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 37/47] fix: a test table without function values after one
 with values

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 65e69d1..0836b5f 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -229,6 +229,7 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	} else if (XrawTest.getNCols() == dimension) {
 		// Data contains only input values
 		XTest = XrawTest;
+		ifTestDataHasFunctionValues = false;
 	} else {
 		// Invalid number of columns
 		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
-- 
2.43.0


From 332057b7259f77cf87cd05294047d687acbfdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 38/47] fix: validation samples are those of the table read
 last

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 0836b5f..79d078d 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -131,6 +131,7 @@ void SurrogateModelData::readData(string inputFilename){
 		numberOfSamples = rawData.getNRows();
 		indicesForValidationData = generateRandomIndicesForValidationData(numberOfSamples, ratioValidationData);
 
+		rawDataValidation.reset();
 		for (int idx : indicesForValidationData) {
 			vec validationSample = rawData.getRow(idx);
 			rawDataValidation.addRow(validationSample,-1);
-- 
2.43.0


From daf95d4c051654eff433b3cf65f3b51f191ccb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 39/47] fix: refuse training data with values that are not
 finite

---
 src/SurrogateModels/surrogate_model_data.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 79d078d..2b7bd46 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -4,6 +4,7 @@
 #include <random>
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 
 
 namespace Rodop{
@@ -119,6 +120,15 @@ void SurrogateModelData::readData(string inputFilename){
 	printMessage("Loading data from the file: " + inputFilename + "\n");
 
 	rawData.readFromCSV(inputFilename);
+
+	for (unsigned int i = 0; i < rawData.getNRows(); i++) {
+		for (unsigned int j = 0; j < rawData.getNCols(); j++) {
+			if (!std::isfinite(rawData(i, j))) {
+				throw std::runtime_error("Training data has a value that is not finite in the file: " + inputFilename);
+			}
+		}
+	}
+
 	rawDataWork = rawData;
 
 	if(ifDisplay){
-- 
2.43.0


From 45f324b4f63a42769605de34a869a43273601733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 40/47] fix: header of the test results when a model is tested
 again

---
 src/SurrogateModels/surrogate_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..452c422 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -256,6 +256,8 @@ double SurrogateModel::calculateOutSampleError(void){
 
 void SurrogateModel::writeFileHeaderForTestResults() {
 
+	testResultsFileHeader.clear();
+
 	unsigned int dim = data.getDimension();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
-- 
2.43.0


From de5b4e94177827b81d8fb0a73c9612ac7b5a478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 41/47] fix: training error of a model with held-out samples

---
 src/SurrogateModels/INCLUDE/surrogate_model_data.hpp | 1 +
 src/SurrogateModels/surrogate_model.cpp              | 2 +-
 src/SurrogateModels/surrogate_model_data.cpp         | 4 ++++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 6023ce2..f21b06b 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -135,6 +135,7 @@ public:
 	void setDimension(unsigned int);
 
 	mat getRawData(void) const;
+	mat getRawDataWithoutValidationSamples(void) const;
 
 	vec getRowX(unsigned int index) const;
 	vec getRowXTest(unsigned int index) const;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 452c422..470f360 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -199,7 +199,7 @@ double SurrogateModel::calculateInSampleError(string mode) const{
 	ModelLogger::getInstance().log(INFO, "Surrogate model: Calculating in sample error using " + std::to_string(data.getNumberOfSamples()) + " samples");
 
 	vec fTildeValues(data.getNumberOfSamples());
-	mat rawData = data.getRawData();
+	mat rawData = data.getRawDataWithoutValidationSamples();
 	vec fExact = rawData.getCol(dimension);
 
 	mat X = data.getInputMatrix();
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 2b7bd46..34010ba 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -61,6 +61,10 @@ mat SurrogateModelData::getRawData(void) const{
 	return rawData;
 }
 
+mat SurrogateModelData::getRawDataWithoutValidationSamples(void) const{
+	return rawDataWork;
+}
+
 
 void SurrogateModelData::setGradientsOn(void){
 	ifDataHasGradients = true;
-- 
2.43.0


From f3e4200f9f00c961972e7e893e41762d85b340f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 42/47] fix: training with a validation ratio that leaves no
 validation samples

---
 src/SurrogateModels/kriging_training.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 3bcb360..91b4f10 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -704,9 +704,13 @@ void KrigingModel::train() {
 			throw std::runtime_error("KrigingModel::train: Invalid dimension detected. The dimension must be set.");
 		}
 
-		if(ifHasValidationSamples){
+		if(ifHasValidationSamples && data.getNumberOfSamplesValidation() > 0){
 			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
 		}
+		else if(objectiveFunctionType == VALIDATION_ERROR){
+			ModelLogger::getInstance().log(WARNING, "KrigingModel::train: There are no validation samples, maximum likelihood is used.");
+			setObjectiveFunctionTypeForModelTraining(MAXIMUM_LIKELIHOOD);
+		}
 
 
 		// Setting up bounds for hyperparameter optimization
-- 
2.43.0


From 4c79455fc70442e479657e7902e16c1731cb9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 43/47] fix: an infinite value returned through the API is a
 failed evaluation

---
 src/API/cppAPI.cpp              | 8 ++++----
 src/Optimizers/optimization.cpp | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index dd24899..68cd541 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -318,8 +318,8 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
             try {
                 // Evaluate the constraint function
                 double f = constraintFunctionPtr[iConstraint](x.getPointer());
-                if (std::isnan(f)) {
-                    throw std::runtime_error("NaN is returned by the constraint function.");
+                if (!std::isfinite(f)) {
+                    throw std::runtime_error("A value that is not finite is returned by the constraint function.");
                 }
 
                 // Add the constraint result to the sample data
@@ -381,8 +381,8 @@ void RobustDesignOptimizer::performDoE(void) {
 		try {
 			// Try to evaluate the objective function
 			functionValues(i) = objectiveFunctionPtr(x.getPointer());
-			if (std::isnan(functionValues(i))) {
-				throw std::runtime_error("NaN is returned by the objective function.");
+			if (!std::isfinite(functionValues(i))) {
+				throw std::runtime_error("A value that is not finite is returned by the objective function.");
 			}
 		} catch (const std::exception& e) {
 			// Handle the exception, possibly logging the error and rethrowing it
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 2f1263b..1df5200 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1251,6 +1251,15 @@ void Optimizer::abortIfCurrentDesignHasANaN() {
 	if (currentBestDesign.checkIfHasNan()) {
 		throw std::runtime_error("Error: NaN detected in current best design while reading external executable outputs.");
 	}
+	bool ifHasInfiniteValue = std::isinf(currentBestDesign.trueValue);
+	for (unsigned int i = 0; i < currentBestDesign.constraintTrueValues.getSize(); i++) {
+		if (std::isinf(currentBestDesign.constraintTrueValues(i))) {
+			ifHasInfiniteValue = true;
+		}
+	}
+	if (ifHasInfiniteValue) {
+		throw std::runtime_error("Error: Infinite value detected in current best design.");
+	}
 }
 
 
-- 
2.43.0


From fd2aa18fff5c459a2d69ad1f2d35d5474c795f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 44/47] fix: held-out validation samples stay out of a model
 trained from a warm-start file

---
 src/SurrogateModels/kriging_training.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 91b4f10..d01878e 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -798,8 +798,8 @@ void KrigingModel::train() {
 		}
 	}
 
-	if(objectiveFunctionType == VALIDATION_ERROR){
-		ModelLogger::getInstance().log(INFO, "Kriging training has been performed using validation error");
+	if(data.getNumberOfSamplesValidation() > 0){
+		ModelLogger::getInstance().log(INFO, "Kriging training is done, the validation samples are training samples again");
 		data.revertBackToFullData();
 		mat X = data.getInputMatrix();
 		numberOfSamples = data.getNumberOfSamples();
-- 
2.43.0


From 51553b6d4b07706661b70a2cf69954f4715fd6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 45/47] fix: evaluator output with a malformed number was read
 up to the first wrong character

---
 src/ObjectiveFunctions/objective_function.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index e184dc2..c32e4e5 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -34,6 +34,7 @@
 #include <stdlib.h>
 #include <iostream>
 #include <unistd.h>
+#include <cctype>
 #include <cerrno>
 #include <limits>
 #include <cassert>
@@ -691,6 +692,14 @@ vec ObjectiveFunction::readOutput(const std::string &filename, unsigned int howM
 			ObjectiveFunctionLogger::getInstance().log(ERROR, msg);
 			throw std::runtime_error(msg);
 		}
+
+		// A number must be complete: "1.0D+05" is not 1.0
+		int next = inputFileStream.peek();
+		if (next != std::ifstream::traits_type::eof() && !std::isspace(next)) {
+			std::string msg = "Value " + std::to_string(i) + " is not a valid number in file: " + filename;
+			ObjectiveFunctionLogger::getInstance().log(ERROR, msg);
+			throw std::runtime_error(msg);
+		}
 	}
 
 	inputFileStream.close();
-- 
2.43.0


From e37e2d29f11d6a9451e1840bce5b96a05c024183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 46/47] fix: recorded samples kept a fixed number of decimals,
 small values lost their digits

---
 src/API/cppAPI.cpp                   |  4 ++--
 src/LinearAlgebra/INCLUDE/matrix.hpp |  2 +-
 src/LinearAlgebra/matrix.cpp         | 14 +++++++++-----
 src/LinearAlgebra/vector.cpp         |  4 ++--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 68cd541..a92cb35 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -338,7 +338,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12, {}, true);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -397,7 +397,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, 12, {}, true);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
diff --git a/src/LinearAlgebra/INCLUDE/matrix.hpp b/src/LinearAlgebra/INCLUDE/matrix.hpp
index dec9a83..86f2214 100644
--- a/src/LinearAlgebra/INCLUDE/matrix.hpp
+++ b/src/LinearAlgebra/INCLUDE/matrix.hpp
@@ -91,7 +91,7 @@ public:
 	void display() const { print(); }
 	static	void printPivot(const std::vector<int>& pivot);
 
-	void saveAsCSV(const std::string& filename, int precision = 6, const std::vector<std::string>& header = {}) const;
+	void saveAsCSV(const std::string& filename, int precision = 6, const std::vector<std::string>& header = {}, bool ifScientific = false) const;
 	void readFromCSV(const std::string& filename, bool hasHeader = false);
 
 	mat submat(unsigned int startRow, unsigned int startCol, unsigned int numRows, unsigned int numCols) const;
diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 92abe2a..74b3bbf 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -36,6 +36,8 @@
 #include <iomanip>
 #include <math.h>
 #include <algorithm> // For std::swap
+#include <cerrno>
+#include <cstdlib>
 #include <random>    // For std::random_device and std::mt19937
 #include <vector>
 #include <fstream>
@@ -946,11 +948,11 @@ void mat::print(std::string msg, int p) const {
 }
 
 
-void mat::saveAsCSV(const std::string& filename, int precision, const std::vector<std::string>& header) const {
+void mat::saveAsCSV(const std::string& filename, int precision, const std::vector<std::string>& header, bool ifScientific) const {
 	std::ostringstream out;
 
 	// Set the precision for the output
-	out << std::fixed << std::setprecision(precision);
+	out << (ifScientific ? std::scientific : std::fixed) << std::setprecision(precision);
 
 	// Write header if provided
 	if (!header.empty()) {
@@ -1005,9 +1007,11 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		std::vector<double> row;
 
 		while (std::getline(ss, value, ',')) {
-			std::size_t numberOfCharactersRead = 0;
-			row.push_back(std::stod(value, &numberOfCharactersRead));
-			if (value.find_first_not_of(" \t\r", numberOfCharactersRead) != std::string::npos) {
+			// not std::stod, which refuses the smallest numbers
+			char *end = nullptr;
+			errno = 0;
+			row.push_back(std::strtod(value.c_str(), &end));
+			if (end == value.c_str() || (errno == ERANGE && fabs(row.back()) > 1.0) || value.find_first_not_of(" \t\r", end - value.c_str()) != std::string::npos) {
 				throw std::runtime_error("Invalid value in file " + filename + ": " + value);
 			}
 		}
diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 30166c2..0f8f548 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -675,8 +675,8 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
 
     std::ostringstream row;
 
-    // Set precision for floating-point output
-    row << std::fixed << std::setprecision(precision);
+    // Set precision for floating-point output, whatever the magnitude of the numbers
+    row << std::scientific << std::setprecision(precision);
 
     // Append vector data as a new row
     for (unsigned int i = 0; i < size; ++i) {
-- 
2.43.0


From ce689427511bd169a9b1566b2ccb056e7185decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 47/47] fix: running out of memory while a file was composed
 left numbers or whole elements out of it

---
 src/InternalOptimizers/ea_population.cpp | 1 +
 src/LinearAlgebra/matrix.cpp             | 1 +
 src/LinearAlgebra/vector.cpp             | 2 ++
 src/Optimizers/globalOptimalDesign.cpp   | 4 ++++
 4 files changed, 8 insertions(+)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index ba63e44..6f1a24a 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -211,6 +211,7 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 	}
 
 	std::ostringstream outFile;
+	outFile.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 
 	// Write the header
 	outFile << "ID,ObjectiveFunctionValue,Fitness,ReproductionProbability,DeathProbability";
diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 74b3bbf..337794c 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -950,6 +950,7 @@ void mat::print(std::string msg, int p) const {
 
 void mat::saveAsCSV(const std::string& filename, int precision, const std::vector<std::string>& header, bool ifScientific) const {
 	std::ostringstream out;
+	out.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 
 	// Set the precision for the output
 	out << (ifScientific ? std::scientific : std::fixed) << std::setprecision(precision);
diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 0f8f548..177d62b 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -674,6 +674,7 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
     }
 
     std::ostringstream row;
+    row.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 
     // Set precision for floating-point output, whatever the magnitude of the numbers
     row << std::scientific << std::setprecision(precision);
@@ -692,6 +693,7 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
 
 void vec::saveToCSV(const std::string& filename) const {
 	std::ostringstream out;
+	out.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 
 	for (unsigned int i = 0; i < size; ++i) {
 		out << data[i];
diff --git a/src/Optimizers/globalOptimalDesign.cpp b/src/Optimizers/globalOptimalDesign.cpp
index 26e4b86..3bedf4f 100644
--- a/src/Optimizers/globalOptimalDesign.cpp
+++ b/src/Optimizers/globalOptimalDesign.cpp
@@ -175,17 +175,20 @@ void GlobalOptimalDesign::saveToXMLFile(void) const {
 
 string GlobalOptimalDesign::generateXml(const std::string& elementName, const int& value) const{
 	std::ostringstream xml;
+	xml.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 	xml << std::fixed << "<" << elementName << ">" << value << "</" << elementName << ">";
 	return xml.str();
 }
 
 string GlobalOptimalDesign::generateXml(const std::string& elementName, const double& value) const{
 	std::ostringstream xml;
+	xml.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 	xml << std::fixed << "<" << elementName << ">" << value << "</" << elementName << ">";
 	return xml.str();
 }
 string GlobalOptimalDesign::generateXml(const std::string& elementName, const string& value) const{
 	std::ostringstream xml;
+	xml.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 	xml << std::fixed << "<" << elementName << ">" << value << "</" << elementName << ">";
 	return xml.str();
 }
@@ -194,6 +197,7 @@ std::string GlobalOptimalDesign::generateXmlVector(const std::string& name, cons
 
 	assert(data.getSize() > 0);
 	std::ostringstream xml;
+	xml.exceptions(std::ios::badbit);	// running out of memory must not pass unnoticed
 
 	xml << "<" << name << ">\n";
 	for (unsigned int i=0; i<data.getSize(); i++) {
-- 
2.43.0

