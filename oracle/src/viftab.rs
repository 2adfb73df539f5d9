// generated from vif_tables.txt by tools/tables/gen.py
pub type Row = (&'static str, i32, i32, Option<&'static [&'static str]>, &'static [(&'static str, i32)], (i32, i32), (i32, i32));
#[rustfmt::skip]
pub const ROWS: &[Row] = &[
    ("prim", 0, 7, Some(&["Energy"]), &[("Watt", 1), ("Hour", 1)], (1, -3), (0, 0)),
    ("prim", 8, 15, Some(&["Energy"]), &[("Joul", 1)], (1, 0), (0, 0)),
    ("prim", 16, 23, Some(&["Volume"]), &[("Meter", 3)], (1, -6), (0, 0)),
    ("prim", 24, 31, Some(&["Mass"]), &[("Kilogram", 1)], (1, -3), (0, 0)),
    ("prim", 32, 32, Some(&["OnTime"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("prim", 33, 33, Some(&["OnTime"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("prim", 34, 34, Some(&["OnTime"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("prim", 35, 35, Some(&["OnTime"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("prim", 36, 36, Some(&["OperatingTime"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("prim", 37, 37, Some(&["OperatingTime"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("prim", 38, 38, Some(&["OperatingTime"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("prim", 39, 39, Some(&["OperatingTime"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("prim", 40, 47, Some(&["Power"]), &[("Watt", 1)], (1, -3), (0, 0)),
    ("prim", 48, 55, Some(&["Power"]), &[("Joul", 1), ("Hour", -1)], (1, 0), (0, 0)),
    ("prim", 56, 63, Some(&["VolumeFlow"]), &[("Meter", 3), ("Hour", -1)], (1, -6), (0, 0)),
    ("prim", 64, 71, Some(&["VolumeFlow"]), &[("Meter", 3), ("Minute", -1)], (1, -7), (0, 0)),
    ("prim", 72, 79, Some(&["VolumeFlow"]), &[("Meter", 3), ("Second", -1)], (1, -9), (0, 0)),
    ("prim", 80, 87, Some(&["MassFlow"]), &[("Kilogram", 1), ("Hour", -1)], (1, -3), (0, 0)),
    ("prim", 88, 91, Some(&["FlowTemperature"]), &[("Celsius", 1)], (1, -3), (0, 0)),
    ("prim", 92, 95, Some(&["ReturnTemperature"]), &[("Celsius", 1)], (1, -3), (0, 0)),
    ("prim", 96, 99, Some(&["TemperatureDifference"]), &[("Kelvin", 1)], (1, -3), (0, 0)),
    ("prim", 100, 103, Some(&["ExternalTemperature"]), &[("Celsius", 1)], (1, -3), (0, 0)),
    ("prim", 104, 107, Some(&["Pressure"]), &[("Bar", 1)], (1, -3), (0, 0)),
    ("prim", 108, 108, Some(&["Date"]), &[], (0, 0), (0, 0)),
    ("prim", 109, 109, Some(&["DateTime"]), &[], (0, 0), (0, 0)),
    ("prim", 110, 110, Some(&["DimensionlessHCA"]), &[], (0, 0), (0, 0)),
    ("prim", 112, 115, Some(&["AveragingDuration"]), &[], (0, 0), (0, 0)),
    ("prim", 116, 119, Some(&["ActualityDuration"]), &[], (0, 0), (0, 0)),
    ("prim", 120, 120, Some(&["FabricationNumber"]), &[], (0, 0), (0, 0)),
    ("prim", 121, 121, Some(&["EnhancedIdentification"]), &[], (0, 0), (0, 0)),
    ("prim", 122, 122, Some(&["Address"]), &[], (0, 0), (0, 0)),
    ("prim", 123, 123, Some(&[]), &[], (0, 0), (0, 0)),
    ("prim", -1, -1, None, &[], (0, 0), (0, 0)),
    ("fd", 0, 3, Some(&["Credit"]), &[("LocalMoneyCurrency", 1)], (1, -3), (0, 0)),
    ("fd", 4, 7, Some(&["Debit"]), &[("LocalMoneyCurrency", 1)], (1, -3), (0, 0)),
    ("fd", 8, 8, Some(&["UniqueMessageIdentificationOrAccessNumber"]), &[], (0, 0), (0, 0)),
    ("fd", 9, 9, Some(&["DeviceType"]), &[], (0, 0), (0, 0)),
    ("fd", 10, 10, Some(&["Manufacturer"]), &[], (0, 0), (0, 0)),
    ("fd", 11, 11, Some(&["ParameterSetIdentification"]), &[], (0, 0), (0, 0)),
    ("fd", 12, 12, Some(&["ModelOrVersion"]), &[], (0, 0), (0, 0)),
    ("fd", 13, 13, Some(&["HardwareVersion"]), &[], (0, 0), (0, 0)),
    ("fd", 14, 14, Some(&["MetrologyFirmwareVersion"]), &[], (0, 0), (0, 0)),
    ("fd", 15, 15, Some(&["OtherSoftwareVersion"]), &[], (0, 0), (0, 0)),
    ("fd", 16, 16, Some(&["CustomerLocation"]), &[], (0, 0), (0, 0)),
    ("fd", 17, 17, Some(&["Customer"]), &[], (0, 0), (0, 0)),
    ("fd", 18, 18, Some(&["AccessCodeUser"]), &[], (0, 0), (0, 0)),
    ("fd", 19, 19, Some(&["AccessCodeOperator"]), &[], (0, 0), (0, 0)),
    ("fd", 20, 20, Some(&["AccessCodeSystemOperator"]), &[], (0, 0), (0, 0)),
    ("fd", 21, 21, Some(&["AccessCodeDeveloper"]), &[], (0, 0), (0, 0)),
    ("fd", 22, 22, Some(&["Password"]), &[], (0, 0), (0, 0)),
    ("fd", 23, 23, Some(&["ErrorFlags"]), &[], (0, 0), (0, 0)),
    ("fd", 24, 24, Some(&["ErrorMask"]), &[], (0, 0), (0, 0)),
    ("fd", 25, 25, Some(&["SecurityKey"]), &[], (0, 0), (0, 0)),
    ("fd", 26, 26, Some(&["DigitalOutput", "Binary"]), &[], (0, 0), (0, 0)),
    ("fd", 27, 27, Some(&["DigitalInput", "Binary"]), &[], (0, 0), (0, 0)),
    ("fd", 28, 28, Some(&["BaudRate"]), &[("Symbol", 1), ("Second", -1)], (0, 0), (0, 0)),
    ("fd", 29, 29, Some(&["ResponseDelayTime"]), &[("BitTime", 1)], (0, 0), (0, 0)),
    ("fd", 30, 30, Some(&["Retry"]), &[], (0, 0), (0, 0)),
    ("fd", 31, 31, Some(&["RemoteControl"]), &[], (0, 0), (0, 0)),
    ("fd", 32, 32, Some(&["FirstStorageForCycleStorage"]), &[], (0, 0), (0, 0)),
    ("fd", 33, 33, Some(&["LastStorageForCycleStorage"]), &[], (0, 0), (0, 0)),
    ("fd", 34, 34, Some(&["SizeOfStorageBlock"]), &[], (0, 0), (0, 0)),
    ("fd", 35, 35, Some(&["DescriptionOfTariffAndSubunit"]), &[], (0, 0), (0, 0)),
    ("fd", 36, 36, Some(&["StorageInterval"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("fd", 37, 37, Some(&["StorageInterval"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("fd", 38, 38, Some(&["StorageInterval"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("fd", 39, 39, Some(&["StorageInterval"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("fd", 40, 40, Some(&["StorageInterval"]), &[("Month", 1)], (0, 0), (0, 0)),
    ("fd", 41, 41, Some(&["StorageInterval"]), &[("Year", 1)], (0, 0), (0, 0)),
    ("fd", 48, 48, Some(&["DimensionlessHCA"]), &[], (0, 0), (0, 0)),
    ("fd", 49, 49, Some(&["DataContainerForWmbusProtocol"]), &[], (0, 0), (0, 0)),
    ("fd", 50, 50, Some(&["PeriodOfNormalDataTransmission"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("fd", 51, 51, Some(&["PeriodOfNormalDataTransmission"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("fd", 52, 52, Some(&["PeriodOfNormalDataTransmission"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("fd", 53, 53, Some(&["PeriodOfNormalDataTransmission"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("fd", 58, 58, Some(&["Dimensionless"]), &[], (0, 0), (0, 0)),
    ("fd", 64, 79, Some(&["Voltage"]), &[("Volt", 1)], (1, -9), (0, 0)),
    ("fd", 80, 95, Some(&["Current"]), &[("Ampere", 1)], (1, -12), (0, 0)),
    ("fd", 96, 96, Some(&["ResetCounter"]), &[], (0, 0), (0, 0)),
    ("fd", 97, 97, Some(&["CumulationCounter"]), &[], (0, 0), (0, 0)),
    ("fd", 98, 98, Some(&["ControlSignal"]), &[], (0, 0), (0, 0)),
    ("fd", 99, 99, Some(&["DayOfWeek"]), &[], (0, 0), (0, 0)),
    ("fd", 100, 100, Some(&["WeekNumber"]), &[], (0, 0), (0, 0)),
    ("fd", 101, 101, Some(&["TimePointOfChangeOfTariff"]), &[], (0, 0), (0, 0)),
    ("fd", 102, 102, Some(&["StateOfParameterActivation"]), &[], (0, 0), (0, 0)),
    ("fd", 103, 103, Some(&["SpecialSupplierInformation"]), &[], (0, 0), (0, 0)),
    ("fd", 104, 104, Some(&["DurationSinceLastCumulation"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("fd", 105, 105, Some(&["DurationSinceLastCumulation"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("fd", 106, 106, Some(&["DurationSinceLastCumulation"]), &[("Month", 1)], (0, 0), (0, 0)),
    ("fd", 107, 107, Some(&["DurationSinceLastCumulation"]), &[("Year", 1)], (0, 0), (0, 0)),
    ("fd", 108, 108, Some(&["OperatingTimeBattery"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("fd", 109, 109, Some(&["OperatingTimeBattery"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("fd", 110, 110, Some(&["OperatingTimeBattery"]), &[("Month", 1)], (0, 0), (0, 0)),
    ("fd", 111, 111, Some(&["OperatingTimeBattery"]), &[("Year", 1)], (0, 0), (0, 0)),
    ("fd", 112, 112, Some(&["DateAndTimeOfBatteryChange"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("fd", 113, 113, Some(&["RFPowerLevel"]), &[("DecibelMilliWatt", 1)], (0, 0), (0, 0)),
    ("fd", 114, 114, Some(&["DaylightSavingBeginningEndingDeviation"]), &[], (0, 0), (0, 0)),
    ("fd", 115, 115, Some(&["ListeningWindowManagementData"]), &[], (0, 0), (0, 0)),
    ("fd", 116, 116, Some(&["RemainingBatteryLifeTime"]), &[], (0, 0), (0, 0)),
    ("fd", 117, 117, Some(&["NumberOfTimesTheMeterWasStopped"]), &[], (0, 0), (0, 0)),
    ("fd", 118, 118, Some(&["DataContainerForManufacturerSpecificProtocol"]), &[], (0, 0), (0, 0)),
    ("fd", -1, -1, Some(&["Reserved"]), &[], (0, 0), (0, 0)),
    ("fdfd", 0, 0, Some(&["CurrentlySelectedApplication"]), &[], (0, 0), (0, 0)),
    ("fdfd", 2, 2, Some(&["RemainingBatteryLifeTime"]), &[("Month", 1)], (0, 0), (0, 0)),
    ("fdfd", 3, 3, Some(&["RemainingBatteryLifeTime"]), &[("Year", 1)], (0, 0), (0, 0)),
    ("fdfd", 62, 62, Some(&["MoistureLevel"]), &[("Percent", 1)], (0, 0), (0, 0)),
    ("fdfd", -1, -1, Some(&["Reserved"]), &[], (0, 0), (0, 0)),
    ("fb", 0, 1, Some(&["Energy"]), &[("Watt", 1), ("Hour", 1)], (1, 5), (0, 0)),
    ("fb", 2, 3, Some(&["ReactiveEnergy"]), &[("ReactiveWatt", 1), ("Hour", 1)], (1, 3), (0, 0)),
    ("fb", 4, 5, Some(&["ApparentEnergy"]), &[("ApparentWatt", 1), ("Hour", 1)], (1, 3), (0, 0)),
    ("fb", 6, 6, Some(&["CoefficientOfPerformance"]), &[], (0, -1), (0, 0)),
    ("fb", 8, 9, Some(&["Energy"]), &[("Joul", 1)], (1, 8), (0, 0)),
    ("fb", 12, 15, Some(&["Energy"]), &[("Calorie", 1)], (1, 5), (0, 0)),
    ("fb", 16, 17, Some(&["Volume"]), &[("Meter", 3)], (1, 2), (0, 0)),
    ("fb", 20, 23, Some(&["ReactivePower"]), &[("ReactiveWatt", 1)], (1, 0), (0, 0)),
    ("fb", 24, 25, Some(&["Mass"]), &[("Tonne", 1)], (1, 2), (0, 0)),
    ("fb", 26, 27, Some(&["RelativeHumidity"]), &[("Percent", 1)], (1, -1), (0, 0)),
    ("fb", 32, 32, Some(&["Volume"]), &[("Feet", 3)], (0, 0), (0, 0)),
    ("fb", 33, 33, Some(&["Volume"]), &[("Feet", 3)], (0, -1), (0, 0)),
    ("fb", 35, 35, Some(&["PhaseItoU"]), &[("Degree", 1)], (0, -1), (0, 0)),
    ("fb", 40, 41, Some(&["Power"]), &[("Watt", 1)], (1, 5), (0, 0)),
    ("fb", 42, 42, Some(&["PhaseUtoU"]), &[("Degree", 1)], (0, -1), (0, 0)),
    ("fb", 43, 43, Some(&["PhaseUtoI"]), &[("Degree", 1)], (0, -1), (0, 0)),
    ("fb", 44, 47, Some(&["Frequency"]), &[("Hertz", 1)], (1, -3), (0, 0)),
    ("fb", 48, 49, Some(&["Power"]), &[("Joul", 1), ("Hour", -1)], (1, 8), (0, 0)),
    ("fb", 52, 55, Some(&["ApparentPower"]), &[("ApparentWatt", 1)], (1, 0), (0, 0)),
    ("fb", 88, 91, Some(&["FlowTemperature"]), &[("Fahrenheit", 1)], (1, -3), (0, 0)),
    ("fb", 92, 95, Some(&["ReturnTemperature"]), &[("Fahrenheit", 1)], (1, -3), (0, 0)),
    ("fb", 96, 99, Some(&["TemperatureDifference"]), &[("Fahrenheit", 1)], (1, -3), (0, 0)),
    ("fb", 100, 103, Some(&["ExternalTemperature"]), &[("Fahrenheit", 1)], (1, -3), (0, 0)),
    ("fb", 104, 104, Some(&["ResultingRatingFactor"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 105, 105, Some(&["ThermalOutputRatingFactor"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 106, 106, Some(&["ThermalCouplingRatingFactorOverall"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 107, 107, Some(&["ThermalCouplingRatingRoomSide"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 108, 108, Some(&["ThermalCouplingRatingFactorHeatingSide"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 109, 109, Some(&["LowTemperatureRatingFactor"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 110, 110, Some(&["DisplayOutputScalingFactor"]), &[("HCAUnit", 1)], (0, 0), (0, 0)),
    ("fb", 112, 115, Some(&["ColdWarmTemperatureLimit"]), &[("Fahrenheit", 1)], (1, -3), (0, 0)),
    ("fb", 116, 119, Some(&["ColdWarmTemperatureLimit"]), &[("Celsius", 1)], (1, -3), (0, 0)),
    ("fb", 120, 127, Some(&["CumulativeMaximumOfActivePower"]), &[("Watt", 1)], (1, -3), (0, 0)),
    ("fb", -1, -1, Some(&["Reserved"]), &[], (0, 0), (0, 0)),
    ("orth", 0, 15, Some(&["ReservedForObjectActions"]), &[], (0, 0), (0, 0)),
    ("orth", 18, 18, Some(&["Averaged"]), &[], (0, 0), (0, 0)),
    ("orth", 19, 19, Some(&["InverseCompactProfile"]), &[], (0, 0), (0, 0)),
    ("orth", 20, 20, Some(&["RelativeDeviation"]), &[], (0, 0), (0, 0)),
    ("orth", 21, 28, Some(&["RecordErrorCodes"]), &[], (0, 0), (0, 0)),
    ("orth", 29, 29, Some(&["StandardConformDataContent"]), &[], (0, 0), (0, 0)),
    ("orth", 30, 30, Some(&["CompactProfileWithRegisterNumbers"]), &[], (0, 0), (0, 0)),
    ("orth", 31, 31, Some(&["CompactProfile"]), &[], (0, 0), (0, 0)),
    ("orth", 32, 32, Some(&[]), &[("Second", -1)], (0, 0), (0, 0)),
    ("orth", 33, 33, Some(&[]), &[("Minute", -1)], (0, 0), (0, 0)),
    ("orth", 34, 34, Some(&[]), &[("Hour", -1)], (0, 0), (0, 0)),
    ("orth", 35, 35, Some(&[]), &[("Day", -1)], (0, 0), (0, 0)),
    ("orth", 36, 36, Some(&[]), &[("Week", -1)], (0, 0), (0, 0)),
    ("orth", 37, 37, Some(&[]), &[("Month", -1)], (0, 0), (0, 0)),
    ("orth", 38, 38, Some(&[]), &[("Year", -1)], (0, 0), (0, 0)),
    ("orth", 39, 39, Some(&[]), &[("Revolution", -1)], (0, 0), (0, 0)),
    ("orth", 40, 40, Some(&[]), &[("Increment", 1), ("InputPulseOnChannel0", -1)], (0, 0), (0, 0)),
    ("orth", 41, 41, Some(&[]), &[("Increment", 1), ("InputPulseOnChannel1", -1)], (0, 0), (0, 0)),
    ("orth", 42, 42, Some(&[]), &[("Increment", 1), ("OutputPulseOnChannel0", -1)], (0, 0), (0, 0)),
    ("orth", 43, 43, Some(&[]), &[("Increment", 1), ("OutputPulseOnChannel1", -1)], (0, 0), (0, 0)),
    ("orth", 44, 44, Some(&[]), &[("Liter", -1)], (0, 0), (0, 0)),
    ("orth", 45, 45, Some(&[]), &[("Meter", -3)], (0, 0), (0, 0)),
    ("orth", 46, 46, Some(&[]), &[("Kilogram", -1)], (0, 0), (0, 0)),
    ("orth", 47, 47, Some(&[]), &[("Kelvin", -1)], (0, 0), (0, 0)),
    ("orth", 48, 48, Some(&[]), &[("Watt", -1), ("Hour", -1)], (0, -3), (0, 0)),
    ("orth", 49, 49, Some(&[]), &[("Joul", -1)], (0, -9), (0, 0)),
    ("orth", 50, 50, Some(&[]), &[("Watt", -1)], (0, -3), (0, 0)),
    ("orth", 51, 51, Some(&[]), &[("Kelvin", -1), ("Liter", -1)], (0, 0), (0, 0)),
    ("orth", 52, 52, Some(&[]), &[("Volt", -1)], (0, 0), (0, 0)),
    ("orth", 53, 53, Some(&[]), &[("Ampere", -1)], (0, 0), (0, 0)),
    ("orth", 54, 54, Some(&[]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 55, 55, Some(&[]), &[("Second", 1), ("Volt", -1)], (0, 0), (0, 0)),
    ("orth", 56, 56, Some(&[]), &[("Second", 1), ("Ampere", -1)], (0, 0), (0, 0)),
    ("orth", 57, 57, Some(&["StartDateOf"]), &[], (0, 0), (0, 0)),
    ("orth", 58, 58, Some(&["VifContainsUncorrectedUnitOrValue"]), &[], (0, 0), (0, 0)),
    ("orth", 59, 59, Some(&["AccumulationOnlyIfValueIsPositive"]), &[], (0, 0), (0, 0)),
    ("orth", 60, 60, Some(&["AccumulationOnlyIfValueIsNegative"]), &[], (0, 0), (0, 0)),
    ("orth", 61, 61, Some(&["NonMetricUnits"]), &[], (0, 0), (0, 0)),
    ("orth", 62, 62, Some(&["ValueAtBaseConditions"]), &[], (0, 0), (0, 0)),
    ("orth", 63, 63, Some(&["ObisDeclaration"]), &[], (0, 0), (0, 0)),
    ("orth", 64, 64, Some(&["LowerLimitValue"]), &[], (0, 0), (0, 0)),
    ("orth", 65, 65, Some(&["NumberOfExceedsOfLowerLimitValue"]), &[], (0, 0), (0, 0)),
    ("orth", 66, 66, Some(&["DateOfBeginFirstLowerLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 67, 67, Some(&["DateOfEndFirstLowerLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 70, 70, Some(&["DateOfBeginLastLowerLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 71, 71, Some(&["DateOfEndLastLowerLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 72, 72, Some(&["UpperLimitValue"]), &[], (0, 0), (0, 0)),
    ("orth", 73, 73, Some(&["NumberOfExceedsOfUpperLimitValue"]), &[], (0, 0), (0, 0)),
    ("orth", 74, 74, Some(&["DateOfBeginFirstUpperLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 75, 75, Some(&["DateOfEndFirstUpperLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 78, 78, Some(&["DateOfBeginLastUpperLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 79, 79, Some(&["DateOfEndLastUpperLimitExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 80, 80, Some(&["DurationOfFirstLowerLimitExceed"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 81, 81, Some(&["DurationOfFirstLowerLimitExceed"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("orth", 82, 82, Some(&["DurationOfFirstLowerLimitExceed"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("orth", 83, 83, Some(&["DurationOfFirstLowerLimitExceed"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("orth", 84, 84, Some(&["DurationOfLastLowerLimitExceed"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 85, 85, Some(&["DurationOfLastLowerLimitExceed"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("orth", 86, 86, Some(&["DurationOfLastLowerLimitExceed"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("orth", 87, 87, Some(&["DurationOfLastLowerLimitExceed"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("orth", 88, 88, Some(&["DurationOfFirstUpperLimitExceed"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 89, 89, Some(&["DurationOfFirstUpperLimitExceed"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("orth", 90, 90, Some(&["DurationOfFirstUpperLimitExceed"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("orth", 91, 91, Some(&["DurationOfFirstUpperLimitExceed"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("orth", 92, 92, Some(&["DurationOfLastUpperLimitExceed"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 93, 93, Some(&["DurationOfLastUpperLimitExceed"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("orth", 94, 94, Some(&["DurationOfLastUpperLimitExceed"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("orth", 95, 95, Some(&["DurationOfLastUpperLimitExceed"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("orth", 96, 96, Some(&["DurationOfFirst"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 97, 97, Some(&["DurationOfFirst"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("orth", 98, 98, Some(&["DurationOfFirst"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("orth", 99, 99, Some(&["DurationOfFirst"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("orth", 100, 100, Some(&["DurationOfLast"]), &[("Second", 1)], (0, 0), (0, 0)),
    ("orth", 101, 101, Some(&["DurationOfLast"]), &[("Minute", 1)], (0, 0), (0, 0)),
    ("orth", 102, 102, Some(&["DurationOfLast"]), &[("Hour", 1)], (0, 0), (0, 0)),
    ("orth", 103, 103, Some(&["DurationOfLast"]), &[("Day", 1)], (0, 0), (0, 0)),
    ("orth", 104, 104, Some(&["ValueDuringLowerValueExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 105, 105, Some(&["LeakageValues"]), &[], (0, 0), (0, 0)),
    ("orth", 106, 106, Some(&["DateOfBeginFirst"]), &[], (0, 0), (0, 0)),
    ("orth", 107, 107, Some(&["DateOfEndFirst"]), &[], (0, 0), (0, 0)),
    ("orth", 108, 108, Some(&["ValueDuringUpperValueExceed"]), &[], (0, 0), (0, 0)),
    ("orth", 109, 109, Some(&["OverflowValues"]), &[], (0, 0), (0, 0)),
    ("orth", 110, 110, Some(&["DateOfBeginLast"]), &[], (0, 0), (0, 0)),
    ("orth", 111, 111, Some(&["DateOfEndLast"]), &[], (0, 0), (0, 0)),
    ("orth", 112, 119, Some(&[]), &[], (1, -6), (0, 0)),
    ("orth", 120, 123, Some(&[]), &[], (0, 0), (1, -3)),
    ("orth", 125, 125, Some(&[]), &[], (0, 3), (0, 0)),
    ("orth", 126, 126, Some(&["FutureValue"]), &[], (0, 0), (0, 0)),
    ("orth", 127, 127, Some(&["NextVIFEAndDataOfThisBlockAreManufacturerSpecific"]), &[], (0, 0), (0, 0)),
    ("orth", -1, -1, Some(&["Reserved"]), &[], (0, 0), (0, 0)),
    ("ext", 1, 1, Some(&["AtPhaseL1"]), &[], (0, 0), (0, 0)),
    ("ext", 2, 2, Some(&["AtPhaseL2"]), &[], (0, 0), (0, 0)),
    ("ext", 3, 3, Some(&["AtPhaseL3"]), &[], (0, 0), (0, 0)),
    ("ext", 4, 4, Some(&["AtNeutral"]), &[], (0, 0), (0, 0)),
    ("ext", 5, 5, Some(&["BetweenPhasesL1L2"]), &[], (0, 0), (0, 0)),
    ("ext", 6, 6, Some(&["BetweenPhasesL2L3"]), &[], (0, 0), (0, 0)),
    ("ext", 7, 7, Some(&["BetweenPhasesL3L1"]), &[], (0, 0), (0, 0)),
    ("ext", 8, 8, Some(&["AtQuadrant1"]), &[], (0, 0), (0, 0)),
    ("ext", 9, 9, Some(&["AtQuadrant2"]), &[], (0, 0), (0, 0)),
    ("ext", 10, 10, Some(&["AtQuadrant3"]), &[], (0, 0), (0, 0)),
    ("ext", 11, 11, Some(&["AtQuadrant4"]), &[], (0, 0), (0, 0)),
    ("ext", 12, 12, Some(&["DeltaBetweenImportAndExport"]), &[], (0, 0), (0, 0)),
    ("ext", 13, 13, Some(&["AlternativeNonMetricUnits"]), &[], (0, 0), (0, 0)),
    ("ext", 14, 14, Some(&["SecondarySensorMeasurement"]), &[], (0, 0), (0, 0)),
    ("ext", 15, 15, Some(&["HigherResolutionRegister"]), &[], (0, 0), (0, 0)),
    ("ext", 16, 16, Some(&["AccumulationOfAbsoluteValueBothPositiveAndNegativeContribution"]), &[], (0, 0), (0, 0)),
    ("ext", 17, 17, Some(&["DataPresentedWithTypeC"]), &[], (0, 0), (0, 0)),
    ("ext", 18, 18, Some(&["DataPresentedWithTypeD"]), &[], (0, 0), (0, 0)),
    ("ext", 19, 19, Some(&["EndDate"]), &[], (0, 0), (0, 0)),
    ("ext", 20, 20, Some(&["DirectionFromCommunicationPartnerToMeter"]), &[], (0, 0), (0, 0)),
    ("ext", 21, 21, Some(&["DirectionFromMeterToCommunicationPartner"]), &[], (0, 0), (0, 0)),
    ("ext", -1, -1, Some(&["Reserved"]), &[], (0, 0), (0, 0)),
];
