package thm

import (
	"fmt"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/units"
)

// B01: numbers of the standard have the names of the standard.

type named struct {
	number uint32
	name   string
}

var units0 = []named{
	{0, "SquareMeters"},
	{1, "SquareFeet"},
	{2, "Milliamperes"},
	{3, "Amperes"},
	{4, "Ohms"},
	{5, "Volts"},
	{6, "Kilovolts"},
	{7, "Megavolts"},
	{8, "VoltAmperes"},
	{9, "KilovoltAmperes"},
	{10, "MegavoltAmperes"},
	{11, "VoltAmperesReactive"},
	{12, "KilovoltAmperesReactive"},
	{13, "MegavoltAmperesReactive"},
	{14, "DegreesPhase"},
	{15, "PowerFactor"},
	{16, "Joules"},
	{17, "Kilojoules"},
	{18, "WattHours"},
	{19, "KilowattHours"},
	{20, "Btus"},
	{21, "Therms"},
	{22, "TonHours"},
	{23, "JoulesPerKilogramDryAir"},
	{24, "BtusPerPoundDryAir"},
	{25, "CyclesPerHour"},
	{26, "CyclesPerMinute"},
	{27, "Hertz"},
	{28, "GramsOfWaterPerKilogramDryAir"},
	{29, "PercentRelativeHumidity"},
	{30, "Millimeters"},
	{31, "Meters"},
	{32, "Inches"},
	{33, "Feet"},
	{34, "WattsPerSquareFoot"},
	{35, "WattsPerSquareMeter"},
	{36, "Lumens"},
	{37, "Luxes"},
	{38, "FootCandles"},
	{39, "Kilograms"},
	{40, "PoundsMass"},
	{41, "Tons"},
	{42, "KilogramsPerSecond"},
	{43, "KilogramsPerMinute"},
	{44, "KilogramsPerHour"},
	{45, "PoundsMassPerMinute"},
	{46, "PoundsMassPerHour"},
	{47, "Watts"},
	{48, "Kilowatts"},
	{49, "Megawatts"},
	{50, "BtusPerHour"},
	{51, "Horsepower"},
	{52, "TonsRefrigeration"},
	{53, "Pascals"},
	{54, "Kilopascals"},
	{55, "Bars"},
	{56, "PoundsForcePerSquareInch"},
	{57, "CentimetersOfWater"},
	{58, "InchesOfWater"},
	{59, "MillimetersOfMercury"},
}

var units1 = []named{
	{60, "CentimetersOfMercury"},
	{61, "InchesOfMercury"},
	{62, "DegreesCelsius"},
	{63, "DegreesKelvin"},
	{64, "DegreesFahrenheit"},
	{65, "DegreeDaysCelsius"},
	{66, "DegreeDaysFahrenheit"},
	{67, "Years"},
	{68, "Months"},
	{69, "Weeks"},
	{70, "Days"},
	{71, "Hours"},
	{72, "Minutes"},
	{73, "Seconds"},
	{74, "MetersPerSecond"},
	{75, "KilometersPerHour"},
	{76, "FeetPerSecond"},
	{77, "FeetPerMinute"},
	{78, "MilesPerHour"},
	{79, "CubicFeet"},
	{80, "CubicMeters"},
	{81, "ImperialGallons"},
	{82, "Liters"},
	{83, "UsGallons"},
	{84, "CubicFeetPerMinute"},
	{85, "CubicMetersPerSecond"},
	{86, "ImperialGallonsPerMinute"},
	{87, "LitersPerSecond"},
	{88, "LitersPerMinute"},
	{89, "USGallonsPerMinute"},
	{90, "DegreesAngular"},
	{91, "DegreesCelsiusPerHour"},
	{92, "DegreesCelsiusPerMinute"},
	{93, "DegreesFahrenheitPerHour"},
	{94, "DegreesFahrenheitPerMinute"},
	{95, "NoUnits"},
	{96, "PartsPerMillion"},
	{97, "PartsPerBillion"},
	{98, "Percent"},
	{99, "PercentPerSecond"},
	{100, "PerMinute"},
	{101, "PerSecond"},
	{102, "PsiPerDegreeFahrenheit"},
	{103, "Radians"},
	{104, "RevolutionsPerMinute"},
	{115, "SquareInches"},
	{116, "SquareCentimeters"},
	{117, "BtusPerPound"},
	{118, "Centimeters"},
	{119, "PoundsMassPerSecond"},
	{120, "DeltaDegreesFahrenheit"},
	{121, "DeltaDegreesKelvin"},
	{122, "Kilohms"},
	{123, "Megohms"},
	{124, "Millivolts"},
	{125, "KilojoulesPerKilogram"},
	{126, "Megajoules"},
	{127, "JoulesPerDegreeKelvin"},
	{128, "JoulesPerKilogramDegreeKelvin"},
	{129, "Kilohertz"},
}

var units2 = []named{
	{130, "Megahertz"},
	{131, "PerHour"},
	{132, "Milliwatts"},
	{133, "Hectopascals"},
	{134, "Millibars"},
	{135, "CubicMetersPerHour"},
	{136, "LitersPerHour"},
	{137, "KwHoursPerSquareMeter"},
	{138, "KwHoursPerSquareFoot"},
	{139, "MegajoulesPerSquareMeter"},
	{140, "MegajoulesPerSquareFoot"},
	{141, "WattsPerSquareMeterDegreeKelvin"},
	{142, "CubicFeetPerSecond"},
	{143, "PercentObscurationPerFoot"},
	{144, "PercentObscurationPerMeter"},
	{145, "Milliohms"},
	{146, "MegawattHours"},
	{147, "KiloBtus"},
	{148, "MegaBtus"},
	{149, "KilojoulesPerKilogramDryAir"},
	{150, "MegajoulesPerKilogramDryAir"},
	{151, "KilojoulesPerDegreeKelvin"},
	{152, "MegajoulesPerDegreeKelvin"},
	{153, "Newton"},
	{154, "GramsPerSecond"},
	{155, "GramsPerMinute"},
	{156, "TonsPerHour"},
	{157, "KiloBtusPerHour"},
	{158, "HundredthsSeconds"},
	{159, "Milliseconds"},
	{160, "NewtonMeters"},
	{161, "MillimetersPerSecond"},
	{162, "MillimetersPerMinute"},
	{163, "MetersPerMinute"},
	{164, "MetersPerHour"},
	{165, "CubicMetersPerMinute"},
	{166, "MetersPerSecondPerSecond"},
	{167, "AmperesPerMeter"},
	{168, "AmperesPerSquareMeter"},
	{169, "AmpereSquareMeters"},
	{170, "Farads"},
	{171, "Henrys"},
	{172, "OhmMeters"},
	{173, "Siemens"},
	{174, "SiemensPerMeter"},
	{175, "Teslas"},
	{176, "VoltsPerDegreeKelvin"},
	{177, "VoltsPerMeter"},
	{178, "Webers"},
	{179, "Candelas"},
	{180, "CandelasPerSquareMeter"},
	{181, "DegreesKelvinPerHour"},
	{182, "DegreesKelvinPerMinute"},
	{183, "JouleSeconds"},
	{184, "RadiansPerSecond"},
	{185, "SquareMetersPerNewton"},
	{186, "KilogramsPerCubicMeter"},
	{187, "NewtonSeconds"},
	{188, "NewtonsPerMeter"},
	{189, "WattsPerMeterPerDegreeKelvin"},
}

var units3 = []named{
	{190, "Microsiemens"},
	{191, "CubicFeetPerHour"},
	{192, "USGallonsPerHour"},
	{193, "Kilometers"},
	{194, "Micrometers"},
	{195, "Grams"},
	{196, "Milligrams"},
	{197, "Milliliters"},
	{198, "MillilitersPerSecond"},
	{199, "Decibels"},
	{200, "DecibelsMillivolt"},
	{201, "DecibelsVolt"},
	{202, "Millisiemens"},
	{203, "WattHoursReactive"},
	{204, "KilowattHoursReactive"},
	{205, "MegawattHoursReactive"},
	{206, "MillimetersOfWater"},
	{207, "PerMille"},
	{208, "GramsPerGram"},
	{209, "KilogramsPerKilogram"},
	{210, "GramsPerKilogram"},
	{211, "MilligramsPerGram"},
	{212, "MilligramsPerKilogram"},
	{213, "GramsPerMilliliter"},
	{214, "GramsPerLiter"},
	{215, "MilligramsPerLiter"},
	{216, "MicrogramsPerLiter"},
	{217, "GramsPerCubicMeter"},
	{218, "MilligramsPerCubicMeter"},
	{219, "MicrogramsPerCubicMeter"},
	{220, "NanogramsPerCubicMeter"},
	{221, "GramsPerCubicCentimeter"},
	{222, "Becquerels"},
	{224, "Megabecquerels"},
	{225, "Gray"},
	{226, "Milligray"},
	{227, "Microgray"},
	{228, "Sieverts"},
	{229, "Millisieverts"},
	{230, "Microsieverts"},
	{231, "MicrosievertsPerHour"},
	{232, "DecibelsA"},
	{233, "NephelometricTurbidityUnit"},
	{234, "Ph"},
	{235, "GramsPerSquareMeter"},
	{236, "MinutesPerDegreeKelvin"},
}

var codes0 = []named{
	{0, "Other"},
	{1, "AuthenticationFailed"},
	{2, "ConfigurationInProgress"},
	{3, "DeviceBusy"},
	{4, "DynamicCreationNotSupported"},
	{5, "FileAccessDenied"},
	{6, "IncompatibleSecurityLevels"},
	{7, "InconsistentParameters"},
	{8, "InconsistentSelectionCriterion"},
	{9, "InvalidDataType"},
	{10, "InvalidFileAccessMethod"},
	{11, "InvalidFileStartPosition"},
	{12, "InvalidOperatorName"},
	{13, "InvalidParameterDataType"},
	{14, "InvalidTimeStamp"},
	{15, "KeyGenerationError"},
	{16, "MissingRequiredParameter"},
	{17, "NoObjectsOfSpecifiedType"},
	{18, "NoSpaceForObject"},
	{19, "NoSpaceToAddListElement"},
	{20, "NoSpaceToWriteProperty"},
	{21, "NoVtSessionsAvailable"},
	{22, "PropertyIsNotAList"},
	{23, "ObjectDeletionNotPermitted"},
	{24, "ObjectIdentifierAlreadyExists"},
	{25, "OperationalProblem"},
	{26, "PasswordFailure"},
	{27, "ReadAccessDenied"},
	{28, "SecurityNotSupported"},
	{29, "ServiceRequestDenied"},
	{30, "Timeout"},
	{31, "UnknownObject"},
	{32, "UnknownProperty"},
	{34, "UnknownVtClass"},
	{35, "UnknownVtSession"},
	{36, "UnsupportedObjectType"},
	{37, "ValueOutOfRange"},
	{38, "VtSessionAlreadyClosed"},
	{39, "VtSessionTerminationFailure"},
	{40, "WriteAccessDenied"},
	{41, "CharacterSetNotSupported"},
	{42, "InvalidArrayIndex"},
	{43, "CovSubscriptionFailed"},
	{44, "NotCovProperty"},
	{45, "OptionalFunctionalityNotSupported"},
	{46, "InvalidConfigurationData"},
	{47, "DatatypeNotSupported"},
	{48, "DuplicateName"},
	{49, "DuplicateObjectID"},
	{50, "PropertyIsNotAnArray"},
	{51, "AbortBufferOverflow"},
	{52, "AbortInvalidApduInThisState"},
	{53, "AbortPreemptedByHigherPriorityTask"},
	{54, "AbortSegmentationNotSupported"},
	{55, "AbortProprietary"},
	{56, "AbortOther"},
	{57, "InvalidTag"},
	{58, "NetworkDown"},
	{59, "RejectBufferOverflow"},
	{60, "RejectInconsistentParameters"},
}

var codes1 = []named{
	{61, "RejectInvalidParameterDataType"},
	{62, "RejectInvalidTag"},
	{63, "RejectMissingRequiredParameter"},
	{64, "RejectParameterOutOfRange"},
	{65, "RejectTooManyArguments"},
	{66, "RejectUndefinedEnumeration"},
	{67, "RejectUnrecognizedService"},
	{68, "RejectProprietary"},
	{69, "RejectOther"},
	{70, "UnknownDevice"},
	{71, "UnknownRoute"},
	{72, "ValueNotInitialized"},
	{73, "InvalidEventState"},
	{74, "NoAlarmConfigured"},
	{75, "LogBufferFull"},
	{76, "LoggedValuePurged"},
	{77, "NoPropertySpecified"},
	{78, "NotConfiguredForTriggeredLogging"},
	{79, "UnknownSubscription"},
	{80, "ParameterOutOfRange"},
	{81, "ListElementNotFound"},
	{82, "Busy"},
	{83, "CommunicationDisabled"},
	{84, "Success"},
	{85, "AccessDenied"},
	{86, "BadDestinationAddress"},
	{87, "BadDestinationDeviceID"},
	{88, "BadSignature"},
	{89, "BadSourceAddress"},
	{90, "BadTimestamp"},
	{91, "CannotUseKey"},
	{92, "CannotVerifyMessageID"},
	{93, "CorrectKeyRevision"},
	{94, "DestinationDeviceIDRequired"},
	{95, "DuplicateMessage"},
	{96, "EncryptionNotConfigured"},
	{97, "EncryptionRequired"},
	{98, "IncorrectKey"},
	{99, "InvalidKeyData"},
	{100, "KeyUpdateInProgress"},
	{101, "MalformedMessage"},
	{102, "NotKeyServer"},
	{103, "SecurityNotConfigured"},
	{104, "SourceSecurityRequired"},
	{105, "TooManyKeys"},
	{106, "UnknownAuthenticationType"},
	{107, "UnknownKey"},
	{108, "UnknownKeyRevision"},
	{109, "UnknownSourceMessage"},
	{110, "NotRouterToDnet"},
	{111, "RouterBusy"},
	{112, "UnknownNetworkMessage"},
	{113, "MessageTooLong"},
	{114, "SecurityErrorCode"},
	{115, "AddressingError"},
	{116, "WriteBdtFailed"},
	{117, "ReadBdtFailed"},
	{118, "RegisterForeignDeviceFailed"},
	{119, "ReadFdtFailed"},
	{120, "DeleteFdtEntryFailed"},
}

var codes2 = []named{
	{121, "DistributeBroadcastFailed"},
	{122, "UnknownFileSize"},
	{123, "AbortApduTooLong"},
	{124, "AbortApplicationExceededReplyTime"},
	{125, "AbortOutOfResources"},
	{126, "AbortTsmTimeout"},
	{127, "AbortWindowSizeOutOfRange"},
	{128, "FileFull"},
	{129, "InconsistentConfiguration"},
	{130, "InconsistentObjectType"},
	{131, "InternalError"},
	{132, "NotConfigured"},
	{133, "OutOfMemory"},
	{134, "ValueTooLong"},
	{135, "AbortInsufficientSecurity"},
	{136, "AbortSecurityError"},
}

var classes = []named{
	{0, "DeviceError"},
	{1, "ObjectError"},
	{2, "PropertyError"},
	{3, "ResourcesError"},
	{4, "SecurityError"},
	{5, "ServicesError"},
	{6, "VTError"},
	{7, "CommunicationError"},
}

func B01_Units0() {
	for _, x := range units0 {
		Assert(units.Unit(x.number).String() == x.name, "the unit has its name")
	}
}

func B01_Units1() {
	for _, x := range units1 {
		Assert(units.Unit(x.number).String() == x.name, "the unit has its name")
	}
}

func B01_Units2() {
	for _, x := range units2 {
		Assert(units.Unit(x.number).String() == x.name, "the unit has its name")
	}
}

func B01_Units3() {
	for _, x := range units3 {
		Assert(units.Unit(x.number).String() == x.name, "the unit has its name")
	}
}

func B01_Codes0() {
	for _, x := range codes0 {
		Assert(bacerr.ErrorCode(x.number).String() == x.name, "the error code has its name")
	}
}

func B01_Codes1() {
	for _, x := range codes1 {
		Assert(bacerr.ErrorCode(x.number).String() == x.name, "the error code has its name")
	}
}

func B01_Codes2() {
	for _, x := range codes2 {
		Assert(bacerr.ErrorCode(x.number).String() == x.name, "the error code has its name")
	}
}

func B01_Classes() {
	for _, x := range classes {
		Assert(bacerr.ErrorClass(x.number).String() == x.name, "the error class has its name")
	}
}

// Numbers that have no name are told as numbers, and nothing fails.
func B01_Others(u uint16, c uint32, k uint16) {
	Assert(u != 105 || units.Unit(u).String() == "Unit(105)", "a number is told")
	Assert(u != 300 || units.Unit(u).String() == "Unit(300)", "a number is told")
	Assert(c != 33 || bacerr.ErrorCode(c).String() == "ErrorCode(33)", "a number is told")
	Assert(c != 137 || bacerr.ErrorCode(c).String() == "ErrorCode(137)", "a number is told")
	Assert(k != 8 || bacerr.ErrorClass(k).String() == "ErrorClass(8)", "a number is told")
}

func B01_Link() {
	Assert(segmentation.SegmentedType(0).String() == "SegmentedBoth" && segmentation.SegmentedType(1).String() == "SegmentedTransmit" && segmentation.SegmentedType(2).String() == "SegmentedReceive" && segmentation.SegmentedType(3).String() == "NoSegmentation", "the segmentation has its name")
	Assert(ndpu.NetworkMessageType(0).String() == "WhoIsRouterToNetwork" && ndpu.NetworkMessageType(1).String() == "IamRouterToNetwork" && ndpu.NetworkMessageType(0x12).String() == "WhatIsNetworkNumber" && ndpu.NetworkMessageType(0x13).String() == "NetworkIs", "the message has its name")
}

// Every number is told, whatever it is.
func B01_All(u uint16, c uint32, k uint16, s, n byte) {
	_ = units.Unit(u).String()
	_ = bacerr.ErrorCode(c).String()
	_ = bacerr.ErrorClass(k).String()
	_ = segmentation.SegmentedType(s).String()
	_ = ndpu.NetworkMessageType(n).String()
	Assert(u < 105 || u > 114 || units.Unit(u).String() != "OhmMeters", "a number that has no name has none")
}

var objectTypes = []named{
	{0, "AnalogInput"}, {1, "AnalogOutput"}, {2, "AnalogValue"}, {3, "BinaryInput"}, {4, "BinaryOutput"}, {5, "BinaryValue"}, {8, "Device"}, {10, "File"},
	{13, "MultiStateInput"}, {14, "MultiStateOutput"}, {15, "NotificationClass"}, {19, "MultiStateValue"}, {20, "TrendLog"}, {40, "CharacterString"},
}

func B01_ObjectTypes() {
	for _, x := range objectTypes {
		Assert(btypes.ObjectType(x.number).String() == x.name, "the object type has its name")
		Assert(uint32(btypes.GetType(x.name)) == x.number, "the name stands for its object type")
	}
}

// A name stands for its own object type or for none.
func B01_AnyObjectType(s string, t uint16) {
	x := btypes.GetType(s)
	Assert(x == 0 || x.String() == s, "the name stands for its object type")
	n := btypes.ObjectType(t).String()
	x = btypes.GetType(n)
	Assert(x == 0 || uint16(x) == t, "the name stands for its object type")
	known := false
	for _, y := range objectTypes {
		if uint32(t) == y.number {
			known = true
		}
	}
	Assert(known || n == fmt.Sprintf("Unknown (%d)", t), "a type without a name is told by its number")
}

var properties = []named{
	{8, "AllProperties"}, {28, "Description"}, {42, "FileSize"}, {43, "FileType"}, {70, "ModelName"}, {75, "ObjectIdentifier"}, {76, "ObjectList"}, {77, "ObjectName"},
	{78, "ObjectReference"}, {79, "ObjectType"}, {85, "PresentValue"}, {117, "Units"}, {87, "PriorityArray"},
}

func B01_Properties() {
	keys := btypes.Keys()
	for _, x := range properties {
		p, err := btypes.Get(x.name)
		Assert(err == nil && uint32(p) == x.number, "the name stands for its property")
		Assert(uint32(keys[x.name]) == x.number, "the name is listed")
	}
	keys["PresentValue"] = 1
	p, err := btypes.Get("PresentValue")
	Assert(err == nil && p == 85, "the list is a copy")
	Assert(btypes.String(85) == "Present Value (85)" && btypes.String(28) == "Description (28)" && btypes.String(76) == "Object List (76)" && btypes.String(77) == "Object Name (77)" && btypes.String(75) == "Object Identifier (75)" && btypes.String(87) == "Priority Array (87)" && btypes.String(79) == "Object Type (79)", "the property has its name")
}

// A name stands for a property of the list or for none.
func B01_AnyProperty(s string, p uint32) {
	x, err := btypes.Get(s)
	known := false
	for _, y := range properties {
		if s == y.name {
			known = true
			Assert(err == nil && uint32(x) == y.number, "the name stands for its property")
		}
	}
	Assert(known == (err == nil), "other names are reported")
	Assert(btypes.IsDeviceProperty(btypes.PropertyType(p)) == (p == 76), "only the object list belongs to the device")
}
