SPECIFICATION Spec
CONSTANTS NDays = 3
 NLevels = 2
 DayVolumes = {0, 1, 3}
 Thr <- MCThr
 Support <- MCSupport
INVARIANTS TypeOK NonNegative MassConserved PartialMass DryStaysDry WetStaysWet TypesChain HoursConserve
CHECK_DEADLOCK FALSE
