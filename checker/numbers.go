package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// numbers checks the constants of btypes that stand for numbers of the
// standard: a constant that is declared has the standard's number.
func (c *Ctx) numbers() {
	n := 0
	for path, p := range c.p.Types {
		i := strings.Index(path, "/btypes")
		if i < 0 {
			continue
		}
		for _, name := range p.Scope().Names() {
			x, ok := p.Scope().Lookup(name).(*types.Const)
			if !ok {
				continue
			}
			want, ok := standard[path[i+1:]+"."+name]
			if !ok {
				continue
			}
			n++
			if got, exact := constant.Int64Val(constant.ToInt(x.Val())); !exact || got != want {
				c.violate("number", c.p.pos(x.Pos()), path[i+1:]+"."+name, "%s is %s, in the standard %d", name, x.Val(), want)
			}
		}
	}
	c.count("constants", n)
	// the services of protocol services supported, by name
	e := c.engine()
	e.initGlobals()
	k := 0
	for g, v := range e.initVals {
		x, ok := v.(*StructV)
		if !ok || !strings.HasSuffix(g.Pkg.Pkg.Path(), "/btypes/services") {
			continue
		}
		var name *StrV
		var number *Lin
		for i := 0; i < x.t.NumFields(); i++ {
			switch x.t.Field(i).Name() {
			case "Name":
				name, _ = x.field(i).(*StrV)
			case "Number":
				number, _ = x.field(i).(*Lin)
			}
		}
		if name == nil || number == nil || name.lit == nil {
			continue
		}
		want, ok := services[*name.lit]
		if !ok {
			continue
		}
		k++
		if got, ok := number.intConst(); !ok || got != want {
			c.violate("number", c.p.pos(g.Pos()), "btypes/services."+*name.lit, "%s has bit %s, in the standard %d", *name.lit, number.key, want)
		}
	}
	c.count("services", k)
}

// services has the bits of BACnetServicesSupported (clause 21).
var services = map[string]int{
	"acknowledgeAlarm": 0, "confirmedCOVNotification": 1, "confirmedEventNotification": 2, "getAlarmSummary": 3, "getEnrollmentSummary": 4, "subscribeCOV": 5,
	"atomicReadFile": 6, "atomicWriteFile": 7, "addListElement": 8, "removeListElement": 9, "createObject": 10, "deleteObject": 11, "readProperty": 12,
	"readPropertyConditional": 13, "readPropertyMultiple": 14, "writeProperty": 15, "writePropertyMultiple": 16, "deviceCommunicationControl": 17,
	"confirmedPrivateTransfer": 18, "confirmedTextMessage": 19, "reinitializeDevice": 20, "vtOpen": 21, "vtClose": 22, "vtData": 23, "authenticate": 24, "requestKey": 25,
	"iAm": 26, "iHave": 27, "unconfirmedCOVNotification": 28, "unconfirmedEventNotification": 29, "unconfirmedPrivateTransfer": 30, "unconfirmedTextMessage": 31,
	"timeSynchronization": 32, "whoHas": 33, "whoIs": 34, "readRange": 35, "utcTimeSynchronization": 36, "lifeSafetyOperation": 37, "subscribeCOVProperty": 38,
	"getEventInformation": 39, "writeGroup": 40,
}

// standard has the numbers of clauses 20 and 21 and of annex J by the names of
// their constants.
var standard = map[string]int64{
	"btypes.Abort":                                      112,
	"btypes.AnalogInput":                                0,
	"btypes.AnalogOutput":                               1,
	"btypes.AnalogValue":                                2,
	"btypes.ArrayAll":                                   4294967295,
	"btypes.BVLCTypeBacnetIP":                           129,
	"btypes.BacFuncBroadcast":                           11,
	"btypes.BacFuncBroadcastDistributionTable":          2,
	"btypes.BacFuncBroadcastDistributionTableAck":       3,
	"btypes.BacFuncForwardedNPDU":                       4,
	"btypes.BacFuncResult":                              0,
	"btypes.BacFuncUnicast":                             10,
	"btypes.BacFuncWriteBroadcastDistributionTable":     1,
	"btypes.BinaryInput":                                3,
	"btypes.BinaryOutput":                               4,
	"btypes.BinaryValue":                                5,
	"btypes.CharacterString":                            40,
	"btypes.ComplexAck":                                 48,
	"btypes.ConfirmedServiceRequest":                    0,
	"btypes.CriticalEquipment":                          2,
	"btypes.DeviceType":                                 8,
	"btypes.Error":                                      80,
	"btypes.File":                                       10,
	"btypes.Friday":                                     5,
	"btypes.GlobalBroadcast":                            65535,
	"btypes.LifeSafety":                                 3,
	"btypes.MAX_BACNET_PROPERTY_ID":                     4194303,
	"btypes.Monday":                                     1,
	"btypes.MultiStateInput":                            13,
	"btypes.MultiStateOutput":                           14,
	"btypes.MultiStateValue":                            19,
	"btypes.Normal":                                     0,
	"btypes.NotificationClass":                          15,
	"btypes.PROP_ABSENTEE_LIMIT":                        244,
	"btypes.PROP_ACCEPTED_MODES":                        175,
	"btypes.PROP_ACCESS_ALARM_EVENTS":                   245,
	"btypes.PROP_ACCESS_DOORS":                          246,
	"btypes.PROP_ACCESS_EVENT":                          247,
	"btypes.PROP_ACCESS_EVENT_AUTHENTICATION_FACTOR":    248,
	"btypes.PROP_ACCESS_EVENT_CREDENTIAL":               249,
	"btypes.PROP_ACCESS_EVENT_TAG":                      322,
	"btypes.PROP_ACCESS_EVENT_TIME":                     250,
	"btypes.PROP_ACCESS_TRANSACTION_EVENTS":             251,
	"btypes.PROP_ACCOMPANIMENT":                         252,
	"btypes.PROP_ACCOMPANIMENT_TIME":                    253,
	"btypes.PROP_ACKED_TRANSITIONS":                     0,
	"btypes.PROP_ACK_REQUIRED":                          1,
	"btypes.PROP_ACTION":                                2,
	"btypes.PROP_ACTION_TEXT":                           3,
	"btypes.PROP_ACTIVATION_TIME":                       254,
	"btypes.PROP_ACTIVE_AUTHENTICATION_POLICY":          255,
	"btypes.PROP_ACTIVE_COV_MULTIPLE_SUBSCRIPTIONS":     481,
	"btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS":              152,
	"btypes.PROP_ACTIVE_TEXT":                           4,
	"btypes.PROP_ACTIVE_VT_SESSIONS":                    5,
	"btypes.PROP_ACTUAL_SHED_LEVEL":                     212,
	"btypes.PROP_ADJUST_VALUE":                          176,
	"btypes.PROP_ALARM_VALUE":                           6,
	"btypes.PROP_ALARM_VALUES":                          7,
	"btypes.PROP_ALIGN_INTERVALS":                       193,
	"btypes.PROP_ALL":                                   8,
	"btypes.PROP_ALLOW_GROUP_DELAY_INHIBIT":             365,
	"btypes.PROP_ALL_WRITES_SUCCESSFUL":                 9,
	"btypes.PROP_APDU_LENGTH":                           399,
	"btypes.PROP_APDU_SEGMENT_TIMEOUT":                  10,
	"btypes.PROP_APDU_TIMEOUT":                          11,
	"btypes.PROP_APPLICATION_SOFTWARE_VERSION":          12,
	"btypes.PROP_ARCHIVE":                               13,
	"btypes.PROP_ASSIGNED_ACCESS_RIGHTS":                256,
	"btypes.PROP_ASSIGNED_LANDING_CALLS":                447,
	"btypes.PROP_ATTEMPTED_SAMPLES":                     124,
	"btypes.PROP_AUTHENTICATION_FACTORS":                257,
	"btypes.PROP_AUTHENTICATION_POLICY_LIST":            258,
	"btypes.PROP_AUTHENTICATION_POLICY_NAMES":           259,
	"btypes.PROP_AUTHENTICATION_STATUS":                 260,
	"btypes.PROP_AUTHORIZATION_EXEMPTIONS":              364,
	"btypes.PROP_AUTHORIZATION_MODE":                    261,
	"btypes.PROP_AUTO_SLAVE_DISCOVERY":                  169,
	"btypes.PROP_AVERAGE_VALUE":                         125,
	"btypes.PROP_BACKUP_AND_RESTORE_STATE":              338,
	"btypes.PROP_BACKUP_FAILURE_TIMEOUT":                153,
	"btypes.PROP_BACKUP_PREPARATION_TIME":               339,
	"btypes.PROP_BACNET_IPV6_MODE":                      435,
	"btypes.PROP_BACNET_IPV6_MULTICAST_ADDRESS":         440,
	"btypes.PROP_BACNET_IPV6_UDP_PORT":                  438,
	"btypes.PROP_BACNET_IP_GLOBAL_ADDRESS":              407,
	"btypes.PROP_BACNET_IP_MODE":                        408,
	"btypes.PROP_BACNET_IP_MULTICAST_ADDRESS":           409,
	"btypes.PROP_BACNET_IP_NAT_TRAVERSAL":               410,
	"btypes.PROP_BACNET_IP_UDP_PORT":                    412,
	"btypes.PROP_BASE_DEVICE_SECURITY_POLICY":           327,
	"btypes.PROP_BBMD_ACCEPT_FD_REGISTRATIONS":          413,
	"btypes.PROP_BBMD_BROADCAST_DISTRIBUTION_TABLE":     414,
	"btypes.PROP_BBMD_FOREIGN_DEVICE_TABLE":             415,
	"btypes.PROP_BELONGS_TO":                            262,
	"btypes.PROP_BIAS":                                  14,
	"btypes.PROP_BIT_MASK":                              342,
	"btypes.PROP_BIT_TEXT":                              343,
	"btypes.PROP_BLANK_1":                               18,
	"btypes.PROP_BLINK_WARN_ENABLE":                     373,
	"btypes.PROP_BUFFER_SIZE":                           126,
	"btypes.PROP_CAR_ASSIGNED_DIRECTION":                448,
	"btypes.PROP_CAR_DOOR_COMMAND":                      449,
	"btypes.PROP_CAR_DOOR_STATUS":                       450,
	"btypes.PROP_CAR_DOOR_TEXT":                         451,
	"btypes.PROP_CAR_DOOR_ZONE":                         452,
	"btypes.PROP_CAR_DRIVE_STATUS":                      453,
	"btypes.PROP_CAR_LOAD":                              454,
	"btypes.PROP_CAR_LOAD_Propertybtypes":               455,
	"btypes.PROP_CAR_MODE":                              456,
	"btypes.PROP_CAR_MOVING_DIRECTION":                  457,
	"btypes.PROP_CAR_POSITION":                          458,
	"btypes.PROP_CHANGES_PENDING":                       416,
	"btypes.PROP_CHANGE_OF_STATE_COUNT":                 15,
	"btypes.PROP_CHANGE_OF_STATE_TIME":                  16,
	"btypes.PROP_CHANNEL_NUMBER":                        366,
	"btypes.PROP_CLIENT_COV_INCREMENT":                  127,
	"btypes.PROP_COMMAND":                               417,
	"btypes.PROP_COMMAND_TIME_ARRAY":                    430,
	"btypes.PROP_CONFIGURATION_FILES":                   154,
	"btypes.PROP_CONTROLLED_VARIABLE_Propertybtypes":    20,
	"btypes.PROP_CONTROLLED_VARIABLE_REFERENCE":         19,
	"btypes.PROP_CONTROLLED_VARIABLE_VALUE":             21,
	"btypes.PROP_CONTROL_GROUPS":                        367,
	"btypes.PROP_COUNT":                                 177,
	"btypes.PROP_COUNT_BEFORE_CHANGE":                   178,
	"btypes.PROP_COUNT_CHANGE_TIME":                     179,
	"btypes.PROP_COVU_PERIOD":                           349,
	"btypes.PROP_COVU_RECIPIENTS":                       350,
	"btypes.PROP_COV_INCREMENT":                         22,
	"btypes.PROP_COV_PERIOD":                            180,
	"btypes.PROP_COV_RESUBSCRIPTION_INTERVAL":           128,
	"btypes.PROP_CREDENTIALS":                           265,
	"btypes.PROP_CREDENTIALS_IN_ZONE":                   266,
	"btypes.PROP_CREDENTIAL_DISABLE":                    263,
	"btypes.PROP_CREDENTIAL_STATUS":                     264,
	"btypes.PROP_CURRENT_COMMAND_PRIORITY":              431,
	"btypes.PROP_CURRENT_NOTIFY_TIME":                   129,
	"btypes.PROP_DATABASE_REVISION":                     155,
	"btypes.PROP_DATE_LIST":                             23,
	"btypes.PROP_DAYLIGHT_SAVINGS_STATUS":               24,
	"btypes.PROP_DAYS_REMAINING":                        267,
	"btypes.PROP_DEADBAND":                              25,
	"btypes.PROP_DEFAULT_FADE_TIME":                     374,
	"btypes.PROP_DEFAULT_RAMP_RATE":                     375,
	"btypes.PROP_DEFAULT_STEP_INCREMENT":                376,
	"btypes.PROP_DEFAULT_SUBORDINATE_RELATIONSHIP":      490,
	"btypes.PROP_DEFAULT_TIMEOUT":                       393,
	"btypes.PROP_DEPLOYED_PROFILE_LOCATION":             484,
	"btypes.PROP_DERIVATIVE_CONSTANT":                   26,
	"btypes.PROP_DERIVATIVE_CONSTANT_Propertybtypes":    27,
	"btypes.PROP_DESCRIPTION":                           28,
	"btypes.PROP_DESCRIPTION_OF_HALT":                   29,
	"btypes.PROP_DEVICE_ADDRESS_BINDING":                30,
	"btypes.PROP_DEVICE_TYPE":                           31,
	"btypes.PROP_DIRECT_READING":                        156,
	"btypes.PROP_DISTRIBUTION_KEY_REVISION":             328,
	"btypes.PROP_DOOR_ALARM_STATE":                      226,
	"btypes.PROP_DOOR_EXTENDED_PULSE_TIME":              227,
	"btypes.PROP_DOOR_MEMBERS":                          228,
	"btypes.PROP_DOOR_OPEN_TOO_LONG_TIME":               229,
	"btypes.PROP_DOOR_PULSE_TIME":                       230,
	"btypes.PROP_DOOR_STATUS":                           231,
	"btypes.PROP_DOOR_UNLOCK_DELAY_TIME":                232,
	"btypes.PROP_DO_NOT_HIDE":                           329,
	"btypes.PROP_DUTY_WINDOW":                           213,
	"btypes.PROP_EFFECTIVE_PERIOD":                      32,
	"btypes.PROP_EGRESS_ACTIVE":                         386,
	"btypes.PROP_EGRESS_TIME":                           377,
	"btypes.PROP_ELAPSED_ACTIVE_TIME":                   33,
	"btypes.PROP_ELEVATOR_GROUP":                        459,
	"btypes.PROP_ENABLE":                                133,
	"btypes.PROP_ENERGY_METER":                          460,
	"btypes.PROP_ENERGY_METER_REF":                      461,
	"btypes.PROP_ENTRY_POINTS":                          268,
	"btypes.PROP_ERROR_LIMIT":                           34,
	"btypes.PROP_ESCALATOR_MODE":                        462,
	"btypes.PROP_EVENT_ALGORITHM_INHIBIT":               354,
	"btypes.PROP_EVENT_ALGORITHM_INHIBIT_REF":           355,
	"btypes.PROP_EVENT_DETECTION_ENABLE":                353,
	"btypes.PROP_EVENT_ENABLE":                          35,
	"btypes.PROP_EVENT_MESSAGE_TEXTS":                   351,
	"btypes.PROP_EVENT_MESSAGE_TEXTS_CONFIG":            352,
	"btypes.PROP_EVENT_PARAMETERS":                      83,
	"btypes.PROP_EVENT_STATE":                           36,
	"btypes.PROP_EVENT_TIME_STAMPS":                     130,
	"btypes.PROP_EVENT_TYPE":                            37,
	"btypes.PROP_EXCEPTION_SCHEDULE":                    38,
	"btypes.PROP_EXECUTION_DELAY":                       368,
	"btypes.PROP_EXIT_POINTS":                           269,
	"btypes.PROP_EXPECTED_SHED_LEVEL":                   214,
	"btypes.PROP_EXPIRATION_TIME":                       270,
	"btypes.PROP_EXTENDED_TIME_ENABLE":                  271,
	"btypes.PROP_FAILED_ATTEMPTS":                       273,
	"btypes.PROP_FAILED_ATTEMPTS_TIME":                  274,
	"btypes.PROP_FAILED_ATTEMPT_EVENTS":                 272,
	"btypes.PROP_FAULT_HIGH_LIMIT":                      388,
	"btypes.PROP_FAULT_LOW_LIMIT":                       389,
	"btypes.PROP_FAULT_PARAMETERS":                      358,
	"btypes.PROP_FAULT_SIGNALS":                         463,
	"btypes.PROP_FAULT_TYPE":                            359,
	"btypes.PROP_FAULT_VALUES":                          39,
	"btypes.PROP_FD_BBMD_ADDRESS":                       418,
	"btypes.PROP_FD_SUBSCRIPTION_LIFETIME":              419,
	"btypes.PROP_FEEDBACK_VALUE":                        40,
	"btypes.PROP_FILE_ACCESS_METHOD":                    41,
	"btypes.PROP_FILE_SIZE":                             42,
	"btypes.PROP_FILE_TYPE":                             43,
	"btypes.PROP_FIRMWARE_REVISION":                     44,
	"btypes.PROP_FLOOR_TEXT":                            464,
	"btypes.PROP_FULL_DUTY_BASELINE":                    215,
	"btypes.PROP_GLOBAL_IDENTIFIER":                     323,
	"btypes.PROP_GROUP_ID":                              465,
	"btypes.PROP_GROUP_MEMBERS":                         345,
	"btypes.PROP_GROUP_MEMBER_NAMES":                    346,
	"btypes.PROP_GROUP_MODE":                            467,
	"btypes.PROP_HIGHER_DECK":                           468,
	"btypes.PROP_HIGH_LIMIT":                            45,
	"btypes.PROP_INACTIVE_TEXT":                         46,
	"btypes.PROP_INITIAL_TIMEOUT":                       394,
	"btypes.PROP_INPUT_REFERENCE":                       181,
	"btypes.PROP_INSTALLATION_ID":                       469,
	"btypes.PROP_INSTANCE_OF":                           48,
	"btypes.PROP_INSTANTANEOUS_POWER":                   379,
	"btypes.PROP_INTEGRAL_CONSTANT":                     49,
	"btypes.PROP_INTEGRAL_CONSTANT_Propertybtypes":      50,
	"btypes.PROP_INTERFACE_VALUE":                       387,
	"btypes.PROP_INTERVAL_OFFSET":                       195,
	"btypes.PROP_IN_PROCESS":                            47,
	"btypes.PROP_IN_PROGRESS":                           378,
	"btypes.PROP_IPV6_ADDRESS":                          436,
	"btypes.PROP_IPV6_AUTO_ADDRESSING_ENABLE":           442,
	"btypes.PROP_IPV6_DEFAULT_GATEWAY":                  439,
	"btypes.PROP_IPV6_DHCP_LEASE_TIME":                  443,
	"btypes.PROP_IPV6_DHCP_LEASE_TIME_REMAINING":        444,
	"btypes.PROP_IPV6_DHCP_SERVER":                      445,
	"btypes.PROP_IPV6_DNS_SERVER":                       441,
	"btypes.PROP_IPV6_PREFIX_LENGTH":                    437,
	"btypes.PROP_IPV6_ZONE_INDEX":                       446,
	"btypes.PROP_IP_ADDRESS":                            400,
	"btypes.PROP_IP_DEFAULT_GATEWAY":                    401,
	"btypes.PROP_IP_DHCP_ENABLE":                        402,
	"btypes.PROP_IP_DHCP_LEASE_TIME":                    403,
	"btypes.PROP_IP_DHCP_LEASE_TIME_REMAINING":          404,
	"btypes.PROP_IP_DHCP_SERVER":                        405,
	"btypes.PROP_IP_DNS_SERVER":                         406,
	"btypes.PROP_IP_SUBNET_MASK":                        411,
	"btypes.PROP_ISSUE_CONFIRMED_NOTIFICATIONS":         51,
	"btypes.PROP_IS_UTC":                                344,
	"btypes.PROP_KEY_SETS":                              330,
	"btypes.PROP_LANDING_CALLS":                         470,
	"btypes.PROP_LANDING_CALL_CONTROL":                  471,
	"btypes.PROP_LANDING_DOOR_STATUS":                   472,
	"btypes.PROP_LAST_ACCESS_EVENT":                     275,
	"btypes.PROP_LAST_ACCESS_POINT":                     276,
	"btypes.PROP_LAST_COMMAND_TIME":                     432,
	"btypes.PROP_LAST_CREDENTIAL_ADDED":                 277,
	"btypes.PROP_LAST_CREDENTIAL_ADDED_TIME":            278,
	"btypes.PROP_LAST_CREDENTIAL_REMOVED":               279,
	"btypes.PROP_LAST_CREDENTIAL_REMOVED_TIME":          280,
	"btypes.PROP_LAST_KEY_SERVER":                       331,
	"btypes.PROP_LAST_NOTIFY_RECORD":                    173,
	"btypes.PROP_LAST_PRIORITY":                         369,
	"btypes.PROP_LAST_RESTART_REASON":                   196,
	"btypes.PROP_LAST_RESTORE_TIME":                     157,
	"btypes.PROP_LAST_STATE_CHANGE":                     395,
	"btypes.PROP_LAST_USE_TIME":                         281,
	"btypes.PROP_LIFE_SAFETY_ALARM_VALUES":              166,
	"btypes.PROP_LIGHTING_COMMAND":                      380,
	"btypes.PROP_LIGHTING_COMMAND_DEFAULT_PRIORITY":     381,
	"btypes.PROP_LIMIT_ENABLE":                          52,
	"btypes.PROP_LIMIT_MONITORING_INTERVAL":             182,
	"btypes.PROP_LINK_SPEED":                            420,
	"btypes.PROP_LINK_SPEEDS":                           421,
	"btypes.PROP_LINK_SPEED_AUTONEGOTIATE":              422,
	"btypes.PROP_LIST_OF_GROUP_MEMBERS":                 53,
	"btypes.PROP_LIST_OF_OBJECT_PROPERTY_REFERENCES":    54,
	"btypes.PROP_LIST_OF_SESSION_KEYS":                  55,
	"btypes.PROP_LOCAL_DATE":                            56,
	"btypes.PROP_LOCAL_FORWARDING_ONLY":                 360,
	"btypes.PROP_LOCAL_TIME":                            57,
	"btypes.PROP_LOCATION":                              58,
	"btypes.PROP_LOCKOUT":                               282,
	"btypes.PROP_LOCKOUT_RELINQUISH_TIME":               283,
	"btypes.PROP_LOCK_STATUS":                           233,
	"btypes.PROP_LOGGING_OBJECT":                        183,
	"btypes.PROP_LOGGING_RECORD":                        184,
	"btypes.PROP_LOGGING_TYPE":                          197,
	"btypes.PROP_LOG_BUFFER":                            131,
	"btypes.PROP_LOG_DEVICE_OBJECT_PROPERTY":            132,
	"btypes.PROP_LOG_INTERVAL":                          134,
	"btypes.PROP_LOWER_DECK":                            473,
	"btypes.PROP_LOW_DIFF_LIMIT":                        390,
	"btypes.PROP_LOW_LIMIT":                             59,
	"btypes.PROP_MACHINE_ROOM_ID":                       474,
	"btypes.PROP_MAC_ADDRESS":                           423,
	"btypes.PROP_MAINTENANCE_REQUIRED":                  158,
	"btypes.PROP_MAKING_CAR_CALL":                       475,
	"btypes.PROP_MANIPULATED_VARIABLE_REFERENCE":        60,
	"btypes.PROP_MANUAL_SLAVE_ADDRESS_BINDING":          170,
	"btypes.PROP_MASKED_ALARM_VALUES":                   234,
	"btypes.PROP_MASTER_EXEMPTION":                      284,
	"btypes.PROP_MAXIMUM_OUTPUT":                        61,
	"btypes.PROP_MAXIMUM_VALUE":                         135,
	"btypes.PROP_MAXIMUM_VALUE_TIMESTAMP":               149,
	"btypes.PROP_MAX_ACTUAL_VALUE":                      382,
	"btypes.PROP_MAX_FAILED_ATTEMPTS":                   285,
	"btypes.PROP_MAX_INFO_FRAMES":                       63,
	"btypes.PROP_MAX_MASTER":                            64,
	"btypes.PROP_MAX_PRES_VALUE":                        65,
	"btypes.PROP_MAX_SEGMENTS_ACCEPTED":                 167,
	"btypes.PROP_MEMBERS":                               286,
	"btypes.PROP_MEMBER_OF":                             159,
	"btypes.PROP_MEMBER_STATUS_FLAGS":                   347,
	"btypes.PROP_MINIMUM_OFF_TIME":                      66,
	"btypes.PROP_MINIMUM_ON_TIME":                       67,
	"btypes.PROP_MINIMUM_OUTPUT":                        68,
	"btypes.PROP_MINIMUM_VALUE":                         136,
	"btypes.PROP_MINIMUM_VALUE_TIMESTAMP":               150,
	"btypes.PROP_MIN_ACTUAL_VALUE":                      383,
	"btypes.PROP_MIN_PRES_VALUE":                        69,
	"btypes.PROP_MODE":                                  160,
	"btypes.PROP_MODEL_NAME":                            70,
	"btypes.PROP_MODIFICATION_DATE":                     71,
	"btypes.PROP_MUSTER_POINT":                          287,
	"btypes.PROP_NEGATIVE_ACCESS_RULES":                 288,
	"btypes.PROP_NETWORK_ACCESS_SECURITY_POLICIES":      332,
	"btypes.PROP_NETWORK_INTERFACE_NAME":                424,
	"btypes.PROP_NETWORK_NUMBER":                        425,
	"btypes.PROP_NETWORK_NUMBER_QUALITY":                426,
	"btypes.PROP_NETWORK_TYPE":                          427,
	"btypes.PROP_NEXT_STOPPING_FLOOR":                   476,
	"btypes.PROP_NODE_SUBTYPE":                          207,
	"btypes.PROP_NODE_TYPE":                             208,
	"btypes.PROP_NOTIFICATION_CLASS":                    17,
	"btypes.PROP_NOTIFICATION_THRESHOLD":                137,
	"btypes.PROP_NOTIFY_TYPE":                           72,
	"btypes.PROP_NUMBER_OF_APDU_RETRIES":                73,
	"btypes.PROP_NUMBER_OF_AUTHENTICATION_POLICIES":     289,
	"btypes.PROP_NUMBER_OF_STATES":                      74,
	"btypes.PROP_OBJECT_IDENTIFIER":                     75,
	"btypes.PROP_OBJECT_LIST":                           76,
	"btypes.PROP_OBJECT_NAME":                           77,
	"btypes.PROP_OBJECT_PROPERTY_REFERENCE":             78,
	"btypes.PROP_OBJECT_TYPE":                           79,
	"btypes.PROP_OCCUPANCY_COUNT":                       290,
	"btypes.PROP_OCCUPANCY_COUNT_ADJUST":                291,
	"btypes.PROP_OCCUPANCY_COUNT_ENABLE":                292,
	"btypes.PROP_OCCUPANCY_EXEMPTION":                   293,
	"btypes.PROP_OCCUPANCY_LOWER_LIMIT":                 294,
	"btypes.PROP_OCCUPANCY_LOWER_LIMIT_ENFORCED":        295,
	"btypes.PROP_OCCUPANCY_STATE":                       296,
	"btypes.PROP_OCCUPANCY_UPPER_LIMIT":                 297,
	"btypes.PROP_OCCUPANCY_UPPER_LIMIT_ENFORCED":        298,
	"btypes.PROP_OPERATION_DIRECTION":                   477,
	"btypes.PROP_OPERATION_EXPECTED":                    161,
	"btypes.PROP_OPTIONAL":                              80,
	"btypes.PROP_OUTPUT_Propertybtypes":                 82,
	"btypes.PROP_OUT_OF_SERVICE":                        81,
	"btypes.PROP_PACKET_REORDER_TIME":                   333,
	"btypes.PROP_PASSBACK_EXEMPTION":                    299,
	"btypes.PROP_PASSBACK_MODE":                         300,
	"btypes.PROP_PASSBACK_TIMEOUT":                      301,
	"btypes.PROP_PASSENGER_ALARM":                       478,
	"btypes.PROP_POLARITY":                              84,
	"btypes.PROP_PORT_FILTER":                           363,
	"btypes.PROP_POSITIVE_ACCESS_RULES":                 302,
	"btypes.PROP_POWER":                                 384,
	"btypes.PROP_POWER_MODE":                            479,
	"btypes.PROP_PRESCALE":                              185,
	"btypes.PROP_PRESENT_VALUE":                         85,
	"btypes.PROP_PREVIOUS_NOTIFY_TIME":                  138,
	"btypes.PROP_PRIORITY":                              86,
	"btypes.PROP_PRIORITY_ARRAY":                        87,
	"btypes.PROP_PRIORITY_FOR_WRITING":                  88,
	"btypes.PROP_PROCESS_IDENTIFIER":                    89,
	"btypes.PROP_PROCESS_IDENTIFIER_FILTER":             361,
	"btypes.PROP_PROFILE_LOCATION":                      485,
	"btypes.PROP_PROFILE_NAME":                          168,
	"btypes.PROP_PROGRAM_CHANGE":                        90,
	"btypes.PROP_PROGRAM_LOCATION":                      91,
	"btypes.PROP_PROGRAM_STATE":                         92,
	"btypes.PROP_PROPERTY_LIST":                         371,
	"btypes.PROP_PROPORTIONAL_CONSTANT":                 93,
	"btypes.PROP_PROPORTIONAL_CONSTANT_Propertybtypes":  94,
	"btypes.PROP_PROTOCOL_CONFORMANCE_CLASS":            95,
	"btypes.PROP_PROTOCOL_LEVEL":                        482,
	"btypes.PROP_PROTOCOL_REVISION":                     139,
	"btypes.PROP_PROTOCOL_VERSION":                      98,
	"btypes.PROP_PULSE_RATE":                            186,
	"btypes.PROP_Propertybtypes":                        117,
	"btypes.PROP_READ_ONLY":                             99,
	"btypes.PROP_REASON_FOR_DISABLE":                    303,
	"btypes.PROP_REASON_FOR_HALT":                       100,
	"btypes.PROP_RECIPIENT":                             101,
	"btypes.PROP_RECIPIENT_LIST":                        102,
	"btypes.PROP_RECORDS_SINCE_NOTIFICATION":            140,
	"btypes.PROP_RECORD_COUNT":                          141,
	"btypes.PROP_REFERENCE_PORT":                        483,
	"btypes.PROP_REGISTERED_CAR_CALL":                   480,
	"btypes.PROP_RELIABILITY":                           103,
	"btypes.PROP_RELIABILITY_EVALUATION_INHIBIT":        357,
	"btypes.PROP_RELINQUISH_DEFAULT":                    104,
	"btypes.PROP_REPRESENTS":                            491,
	"btypes.PROP_REQUESTED_SHED_LEVEL":                  218,
	"btypes.PROP_REQUESTED_UPDATE_INTERVAL":             348,
	"btypes.PROP_REQUIRED":                              105,
	"btypes.PROP_RESOLUTION":                            106,
	"btypes.PROP_RESTART_NOTIFICATION_RECIPIENTS":       202,
	"btypes.PROP_RESTORE_COMPLETION_TIME":               340,
	"btypes.PROP_RESTORE_PREPARATION_TIME":              341,
	"btypes.PROP_ROUTING_TABLE":                         428,
	"btypes.PROP_SCALE":                                 187,
	"btypes.PROP_SCALE_FACTOR":                          188,
	"btypes.PROP_SCHEDULE_DEFAULT":                      174,
	"btypes.PROP_SECURED_STATUS":                        235,
	"btypes.PROP_SECURITY_PDU_TIMEOUT":                  334,
	"btypes.PROP_SECURITY_TIME_WINDOW":                  335,
	"btypes.PROP_SERIAL_NUMBER":                         372,
	"btypes.PROP_SETPOINT":                              108,
	"btypes.PROP_SETPOINT_REFERENCE":                    109,
	"btypes.PROP_SETTING":                               162,
	"btypes.PROP_SHED_DURATION":                         219,
	"btypes.PROP_SHED_LEVELS":                           221,
	"btypes.PROP_SHED_LEVEL_DESCRIPTIONS":               220,
	"btypes.PROP_SILENCED":                              163,
	"btypes.PROP_SLAVE_ADDRESS_BINDING":                 171,
	"btypes.PROP_SLAVE_PROXY_ENABLE":                    172,
	"btypes.PROP_START_TIME":                            142,
	"btypes.PROP_STATE_CHANGE_VALUES":                   396,
	"btypes.PROP_STATE_DESCRIPTION":                     222,
	"btypes.PROP_STATE_TEXT":                            110,
	"btypes.PROP_STATUS_FLAGS":                          111,
	"btypes.PROP_STOP_TIME":                             143,
	"btypes.PROP_STOP_WHEN_FULL":                        144,
	"btypes.PROP_STRIKE_COUNT":                          391,
	"btypes.PROP_STRUCTURED_OBJECT_LIST":                209,
	"btypes.PROP_SUBORDINATE_ANNOTATIONS":               210,
	"btypes.PROP_SUBORDINATE_LIST":                      211,
	"btypes.PROP_SUBORDINATE_NODE_btypes":               487,
	"btypes.PROP_SUBORDINATE_RELATIONSHIPS":             489,
	"btypes.PROP_SUBORDINATE_TAGS":                      488,
	"btypes.PROP_SUBSCRIBED_RECIPIENTS":                 362,
	"btypes.PROP_SUPPORTED_FORMATS":                     304,
	"btypes.PROP_SUPPORTED_FORMAT_CLASSES":              305,
	"btypes.PROP_SUPPORTED_SECURITY_ALGORITHM":          336,
	"btypes.PROP_SYSTEM_STATUS":                         112,
	"btypes.PROP_TAGS":                                  486,
	"btypes.PROP_THREAT_AUTHORITY":                      306,
	"btypes.PROP_THREAT_LEVEL":                          307,
	"btypes.PROP_TIMER_RUNNING":                         397,
	"btypes.PROP_TIMER_STATE":                           398,
	"btypes.PROP_TIME_DELAY":                            113,
	"btypes.PROP_TIME_DELAY_NORMAL":                     356,
	"btypes.PROP_TIME_OF_ACTIVE_TIME_RESET":             114,
	"btypes.PROP_TIME_OF_DEVICE_RESTART":                203,
	"btypes.PROP_TIME_OF_STATE_COUNT_RESET":             115,
	"btypes.PROP_TIME_OF_STRIKE_COUNT_RESET":            392,
	"btypes.PROP_TIME_SYNCHRONIZATION_INTERVAL":         204,
	"btypes.PROP_TIME_SYNCHRONIZATION_RECIPIENTS":       116,
	"btypes.PROP_TOTAL_RECORD_COUNT":                    145,
	"btypes.PROP_TRACE_FLAG":                            308,
	"btypes.PROP_TRACKING_VALUE":                        164,
	"btypes.PROP_TRANSACTION_NOTIFICATION_CLASS":        309,
	"btypes.PROP_TRANSITION":                            385,
	"btypes.PROP_TRIGGER":                               205,
	"btypes.PROP_UPDATE_INTERVAL":                       118,
	"btypes.PROP_UPDATE_KEY_SET_TIMEOUT":                337,
	"btypes.PROP_UPDATE_TIME":                           189,
	"btypes.PROP_USER_EXTERNAL_IDENTIFIER":              310,
	"btypes.PROP_USER_INFORMATION_REFERENCE":            311,
	"btypes.PROP_USER_NAME":                             317,
	"btypes.PROP_USER_TYPE":                             318,
	"btypes.PROP_USES_REMAINING":                        319,
	"btypes.PROP_UTC_OFFSET":                            119,
	"btypes.PROP_UTC_TIME_SYNCHRONIZATION_RECIPIENTS":   206,
	"btypes.PROP_VALID_SAMPLES":                         146,
	"btypes.PROP_VALUE_BEFORE_CHANGE":                   190,
	"btypes.PROP_VALUE_CHANGE_TIME":                     192,
	"btypes.PROP_VALUE_SET":                             191,
	"btypes.PROP_VALUE_SOURCE":                          433,
	"btypes.PROP_VALUE_SOURCE_ARRAY":                    434,
	"btypes.PROP_VARIANCE_VALUE":                        151,
	"btypes.PROP_VENDOR_IDENTIFIER":                     120,
	"btypes.PROP_VERIFICATION_TIME":                     326,
	"btypes.PROP_VIRTUAL_MAC_ADDRESS_TABLE":             429,
	"btypes.PROP_VT_CLASSES_SUPPORTED":                  122,
	"btypes.PROP_WEEKLY_SCHEDULE":                       123,
	"btypes.PROP_WINDOW_INTERVAL":                       147,
	"btypes.PROP_WINDOW_SAMPLES":                        148,
	"btypes.PROP_WRITE_STATUS":                          370,
	"btypes.PROP_ZONE_FROM":                             320,
	"btypes.PROP_ZONE_MEMBERS":                          165,
	"btypes.PROP_ZONE_TO":                               321,
	"btypes.PropAllProperties":                          8,
	"btypes.PropDescription":                            28,
	"btypes.PropFileSize":                               42,
	"btypes.PropFileType":                               43,
	"btypes.PropMaxAPDU":                                62,
	"btypes.PropModelName":                              70,
	"btypes.PropObjectIdentifier":                       75,
	"btypes.PropObjectList":                             76,
	"btypes.PropObjectName":                             77,
	"btypes.PropObjectReference":                        78,
	"btypes.PropObjectType":                             79,
	"btypes.PropPresentValue":                           85,
	"btypes.PropPriorityArray":                          87,
	"btypes.PropProtocolObjectTypesSupported":           96,
	"btypes.PropSegmentationSupported":                  107,
	"btypes.PropUnits":                                  117,
	"btypes.PropVendorIdentifier":                       120,
	"btypes.PropVendorName":                             121,
	"btypes.ProtocolServicesSupported":                  97,
	"btypes.ProtocolVersion":                            1,
	"btypes.Reject":                                     96,
	"btypes.Saturday":                                   6,
	"btypes.SegmentAck":                                 64,
	"btypes.ServiceConfirmedAcknowledgeAlarm":           0,
	"btypes.ServiceConfirmedAddListElement":             8,
	"btypes.ServiceConfirmedAtomicReadFile":             6,
	"btypes.ServiceConfirmedAtomicWriteFile":            7,
	"btypes.ServiceConfirmedAuthenticate":               24,
	"btypes.ServiceConfirmedCOVNotification":            1,
	"btypes.ServiceConfirmedCreateObject":               10,
	"btypes.ServiceConfirmedDeleteObject":               11,
	"btypes.ServiceConfirmedDeviceCommunicationControl": 17,
	"btypes.ServiceConfirmedEventNotification":          2,
	"btypes.ServiceConfirmedGetAlarmSummary":            3,
	"btypes.ServiceConfirmedGetEnrollmentSummary":       4,
	"btypes.ServiceConfirmedGetEventInformation":        29,
	"btypes.ServiceConfirmedLifeSafetyOperation":        27,
	"btypes.ServiceConfirmedPrivateTransfer":            18,
	"btypes.ServiceConfirmedReadPropConditional":        13,
	"btypes.ServiceConfirmedReadPropMultiple":           14,
	"btypes.ServiceConfirmedReadProperty":               12,
	"btypes.ServiceConfirmedReadRange":                  26,
	"btypes.ServiceConfirmedReinitializeDevice":         20,
	"btypes.ServiceConfirmedRemoveListElement":          9,
	"btypes.ServiceConfirmedRequestKey":                 25,
	"btypes.ServiceConfirmedSubscribeCOV":               5,
	"btypes.ServiceConfirmedSubscribeCOVProperty":       28,
	"btypes.ServiceConfirmedTextMessage":                19,
	"btypes.ServiceConfirmedVTClose":                    22,
	"btypes.ServiceConfirmedVTData":                     23,
	"btypes.ServiceConfirmedVTOpen":                     21,
	"btypes.ServiceConfirmedWritePropMultiple":          16,
	"btypes.ServiceConfirmedWriteProperty":              15,
	"btypes.ServiceUnconfirmedCOVNotification":          2,
	"btypes.ServiceUnconfirmedEventNotification":        3,
	"btypes.ServiceUnconfirmedIAm":                      0,
	"btypes.ServiceUnconfirmedIHave":                    1,
	"btypes.ServiceUnconfirmedPrivateTransfer":          4,
	"btypes.ServiceUnconfirmedTextMessage":              5,
	"btypes.ServiceUnconfirmedTimeSync":                 6,
	"btypes.ServiceUnconfirmedUTCTimeSync":              9,
	"btypes.ServiceUnconfirmedWhoHas":                   7,
	"btypes.ServiceUnconfirmedWhoIs":                    8,
	"btypes.ServiceUnconfirmedWriteGroup":               10,
	"btypes.SimpleAck":                                  32,
	"btypes.Sunday":                                     7,
	"btypes.Thursday":                                   4,
	"btypes.TimeStampDatetime":                          2,
	"btypes.TimeStampSequence":                          1,
	"btypes.TimeStampTime":                              0,
	"btypes.TrendLog":                                   20,
	"btypes.Tuesday":                                    2,
	"btypes.TypeAnalogInput":                            0,
	"btypes.TypeAnalogOutput":                           1,
	"btypes.TypeAnalogValue":                            2,
	"btypes.TypeBinaryInput":                            3,
	"btypes.TypeBinaryOutput":                           4,
	"btypes.TypeBinaryValue":                            5,
	"btypes.TypeCharacterString":                        40,
	"btypes.TypeDeviceType":                             8,
	"btypes.TypeFile":                                   10,
	"btypes.TypeMultiStateInput":                        13,
	"btypes.TypeMultiStateOutput":                       14,
	"btypes.TypeMultiStateValue":                        19,
	"btypes.TypeNotificationClass":                      15,
	"btypes.TypeTrendLog":                               20,
	"btypes.UnconfirmedServiceRequest":                  16,
	"btypes.UnspecifiedTime":                            255,
	"btypes.Urgent":                                     1,
	"btypes.Wednesday":                                  3,
	"btypes/bacerr.AbortApduTooLong":                    123,
	"btypes/bacerr.AbortApplicationExceededReplyTime":   124,
	"btypes/bacerr.AbortBufferOverflow":                 51,
	"btypes/bacerr.AbortInsufficientSecurity":           135,
	"btypes/bacerr.AbortInvalidApduInThisState":         52,
	"btypes/bacerr.AbortOther":                          56,
	"btypes/bacerr.AbortOutOfResources":                 125,
	"btypes/bacerr.AbortPreemptedByHigherPriorityTask":  53,
	"btypes/bacerr.AbortProprietary":                    55,
	"btypes/bacerr.AbortSecurityError":                  136,
	"btypes/bacerr.AbortSegmentationNotSupported":       54,
	"btypes/bacerr.AbortTsmTimeout":                     126,
	"btypes/bacerr.AbortWindowSizeOutOfRange":           127,
	"btypes/bacerr.AccessDenied":                        85,
	"btypes/bacerr.AddressingError":                     115,
	"btypes/bacerr.AuthenticationFailed":                1,
	"btypes/bacerr.BadDestinationAddress":               86,
	"btypes/bacerr.BadDestinationDeviceID":              87,
	"btypes/bacerr.BadSignature":                        88,
	"btypes/bacerr.BadSourceAddress":                    89,
	"btypes/bacerr.BadTimestamp":                        90,
	"btypes/bacerr.Busy":                                82,
	"btypes/bacerr.CannotUseKey":                        91,
	"btypes/bacerr.CannotVerifyMessageID":               92,
	"btypes/bacerr.CharacterSetNotSupported":            41,
	"btypes/bacerr.CommunicationDisabled":               83,
	"btypes/bacerr.CommunicationError":                  7,
	"btypes/bacerr.ConfigurationInProgress":             2,
	"btypes/bacerr.CorrectKeyRevision":                  93,
	"btypes/bacerr.CovSubscriptionFailed":               43,
	"btypes/bacerr.DatatypeNotSupported":                47,
	"btypes/bacerr.DeleteFdtEntryFailed":                120,
	"btypes/bacerr.DestinationDeviceIDRequired":         94,
	"btypes/bacerr.DeviceBusy":                          3,
	"btypes/bacerr.DeviceError":                         0,
	"btypes/bacerr.DistributeBroadcastFailed":           121,
	"btypes/bacerr.DuplicateMessage":                    95,
	"btypes/bacerr.DuplicateName":                       48,
	"btypes/bacerr.DuplicateObjectID":                   49,
	"btypes/bacerr.DynamicCreationNotSupported":         4,
	"btypes/bacerr.EncryptionNotConfigured":             96,
	"btypes/bacerr.EncryptionRequired":                  97,
	"btypes/bacerr.FileAccessDenied":                    5,
	"btypes/bacerr.FileFull":                            128,
	"btypes/bacerr.IncompatibleSecurityLevels":          6,
	"btypes/bacerr.InconsistentConfiguration":           129,
	"btypes/bacerr.InconsistentObjectType":              130,
	"btypes/bacerr.InconsistentParameters":              7,
	"btypes/bacerr.InconsistentSelectionCriterion":      8,
	"btypes/bacerr.IncorrectKey":                        98,
	"btypes/bacerr.InternalError":                       131,
	"btypes/bacerr.InvalidArrayIndex":                   42,
	"btypes/bacerr.InvalidConfigurationData":            46,
	"btypes/bacerr.InvalidDataType":                     9,
	"btypes/bacerr.InvalidEventState":                   73,
	"btypes/bacerr.InvalidFileAccessMethod":             10,
	"btypes/bacerr.InvalidFileStartPosition":            11,
	"btypes/bacerr.InvalidKeyData":                      99,
	"btypes/bacerr.InvalidOperatorName":                 12,
	"btypes/bacerr.InvalidParameterDataType":            13,
	"btypes/bacerr.InvalidTag":                          57,
	"btypes/bacerr.InvalidTimeStamp":                    14,
	"btypes/bacerr.KeyGenerationError":                  15,
	"btypes/bacerr.KeyUpdateInProgress":                 100,
	"btypes/bacerr.ListElementNotFound":                 81,
	"btypes/bacerr.LogBufferFull":                       75,
	"btypes/bacerr.LoggedValuePurged":                   76,
	"btypes/bacerr.MalformedMessage":                    101,
	"btypes/bacerr.MessageTooLong":                      113,
	"btypes/bacerr.MissingRequiredParameter":            16,
	"btypes/bacerr.NetworkDown":                         58,
	"btypes/bacerr.NoAlarmConfigured":                   74,
	"btypes/bacerr.NoObjectsOfSpecifiedType":            17,
	"btypes/bacerr.NoPropertySpecified":                 77,
	"btypes/bacerr.NoSpaceForObject":                    18,
	"btypes/bacerr.NoSpaceToAddListElement":             19,
	"btypes/bacerr.NoSpaceToWriteProperty":              20,
	"btypes/bacerr.NoVtSessionsAvailable":               21,
	"btypes/bacerr.NotConfigured":                       132,
	"btypes/bacerr.NotConfiguredForTriggeredLogging":    78,
	"btypes/bacerr.NotCovProperty":                      44,
	"btypes/bacerr.NotKeyServer":                        102,
	"btypes/bacerr.NotRouterToDnet":                     110,
	"btypes/bacerr.ObjectDeletionNotPermitted":          23,
	"btypes/bacerr.ObjectError":                         1,
	"btypes/bacerr.ObjectIdentifierAlreadyExists":       24,
	"btypes/bacerr.OperationalProblem":                  25,
	"btypes/bacerr.OptionalFunctionalityNotSupported":   45,
	"btypes/bacerr.Other":                               0,
	"btypes/bacerr.OutOfMemory":                         133,
	"btypes/bacerr.ParameterOutOfRange":                 80,
	"btypes/bacerr.PasswordFailure":                     26,
	"btypes/bacerr.PropertyError":                       2,
	"btypes/bacerr.PropertyIsNotAList":                  22,
	"btypes/bacerr.PropertyIsNotAnArray":                50,
	"btypes/bacerr.ReadAccessDenied":                    27,
	"btypes/bacerr.ReadBdtFailed":                       117,
	"btypes/bacerr.ReadFdtFailed":                       119,
	"btypes/bacerr.RegisterForeignDeviceFailed":         118,
	"btypes/bacerr.RejectBufferOverflow":                59,
	"btypes/bacerr.RejectInconsistentParameters":        60,
	"btypes/bacerr.RejectInvalidParameterDataType":      61,
	"btypes/bacerr.RejectInvalidTag":                    62,
	"btypes/bacerr.RejectMissingRequiredParameter":      63,
	"btypes/bacerr.RejectOther":                         69,
	"btypes/bacerr.RejectParameterOutOfRange":           64,
	"btypes/bacerr.RejectProprietary":                   68,
	"btypes/bacerr.RejectTooManyArguments":              65,
	"btypes/bacerr.RejectUndefinedEnumeration":          66,
	"btypes/bacerr.RejectUnrecognizedService":           67,
	"btypes/bacerr.ResourcesError":                      3,
	"btypes/bacerr.RouterBusy":                          111,
	"btypes/bacerr.SecurityError":                       4,
	"btypes/bacerr.SecurityErrorCode":                   114,
	"btypes/bacerr.SecurityNotConfigured":               103,
	"btypes/bacerr.SecurityNotSupported":                28,
	"btypes/bacerr.ServiceRequestDenied":                29,
	"btypes/bacerr.ServicesError":                       5,
	"btypes/bacerr.SourceSecurityRequired":              104,
	"btypes/bacerr.Success":                             84,
	"btypes/bacerr.Timeout":                             30,
	"btypes/bacerr.TooManyKeys":                         105,
	"btypes/bacerr.UnknownAuthenticationType":           106,
	"btypes/bacerr.UnknownDevice":                       70,
	"btypes/bacerr.UnknownFileSize":                     122,
	"btypes/bacerr.UnknownKey":                          107,
	"btypes/bacerr.UnknownKeyRevision":                  108,
	"btypes/bacerr.UnknownNetworkMessage":               112,
	"btypes/bacerr.UnknownObject":                       31,
	"btypes/bacerr.UnknownProperty":                     32,
	"btypes/bacerr.UnknownRoute":                        71,
	"btypes/bacerr.UnknownSourceMessage":                109,
	"btypes/bacerr.UnknownSubscription":                 79,
	"btypes/bacerr.UnknownVtClass":                      34,
	"btypes/bacerr.UnknownVtSession":                    35,
	"btypes/bacerr.UnsupportedObjectType":               36,
	"btypes/bacerr.VTError":                             6,
	"btypes/bacerr.ValueNotInitialized":                 72,
	"btypes/bacerr.ValueOutOfRange":                     37,
	"btypes/bacerr.ValueTooLong":                        134,
	"btypes/bacerr.VtSessionAlreadyClosed":              38,
	"btypes/bacerr.VtSessionTerminationFailure":         39,
	"btypes/bacerr.WriteAccessDenied":                   40,
	"btypes/bacerr.WriteBdtFailed":                      116,
	"btypes/ndpu.IamRouterToNetwork":                    1,
	"btypes/ndpu.NetworkIs":                             19,
	"btypes/ndpu.WhatIsNetworkNumber":                   18,
	"btypes/ndpu.WhoIsRouterToNetwork":                  0,
	"btypes/segmentation.NoSegmentation":                3,
	"btypes/segmentation.SegmentedBoth":                 0,
	"btypes/segmentation.SegmentedReceive":              2,
	"btypes/segmentation.SegmentedTransmit":             1,
	"btypes/units.AmpereSquareMeters":                   169,
	"btypes/units.Amperes":                              3,
	"btypes/units.AmperesPerMeter":                      167,
	"btypes/units.AmperesPerSquareMeter":                168,
	"btypes/units.Bars":                                 55,
	"btypes/units.Becquerels":                           222,
	"btypes/units.Btus":                                 20,
	"btypes/units.BtusPerHour":                          50,
	"btypes/units.BtusPerPound":                         117,
	"btypes/units.BtusPerPoundDryAir":                   24,
	"btypes/units.Candelas":                             179,
	"btypes/units.CandelasPerSquareMeter":               180,
	"btypes/units.Centimeters":                          118,
	"btypes/units.CentimetersOfMercury":                 60,
	"btypes/units.CentimetersOfWater":                   57,
	"btypes/units.CubicFeet":                            79,
	"btypes/units.CubicFeetPerHour":                     191,
	"btypes/units.CubicFeetPerMinute":                   84,
	"btypes/units.CubicFeetPerSecond":                   142,
	"btypes/units.CubicMeters":                          80,
	"btypes/units.CubicMetersPerHour":                   135,
	"btypes/units.CubicMetersPerMinute":                 165,
	"btypes/units.CubicMetersPerSecond":                 85,
	"btypes/units.CyclesPerHour":                        25,
	"btypes/units.CyclesPerMinute":                      26,
	"btypes/units.Days":                                 70,
	"btypes/units.Decibels":                             199,
	"btypes/units.DecibelsA":                            232,
	"btypes/units.DecibelsMillivolt":                    200,
	"btypes/units.DecibelsVolt":                         201,
	"btypes/units.DegreeDaysCelsius":                    65,
	"btypes/units.DegreeDaysFahrenheit":                 66,
	"btypes/units.DegreesAngular":                       90,
	"btypes/units.DegreesCelsius":                       62,
	"btypes/units.DegreesCelsiusPerHour":                91,
	"btypes/units.DegreesCelsiusPerMinute":              92,
	"btypes/units.DegreesFahrenheit":                    64,
	"btypes/units.DegreesFahrenheitPerHour":             93,
	"btypes/units.DegreesFahrenheitPerMinute":           94,
	"btypes/units.DegreesKelvin":                        63,
	"btypes/units.DegreesKelvinPerHour":                 181,
	"btypes/units.DegreesKelvinPerMinute":               182,
	"btypes/units.DegreesPhase":                         14,
	"btypes/units.DeltaDegreesFahrenheit":               120,
	"btypes/units.DeltaDegreesKelvin":                   121,
	"btypes/units.Farads":                               170,
	"btypes/units.Feet":                                 33,
	"btypes/units.FeetPerMinute":                        77,
	"btypes/units.FeetPerSecond":                        76,
	"btypes/units.FootCandles":                          38,
	"btypes/units.Grams":                                195,
	"btypes/units.GramsOfWaterPerKilogramDryAir":        28,
	"btypes/units.GramsPerCubicCentimeter":              221,
	"btypes/units.GramsPerCubicMeter":                   217,
	"btypes/units.GramsPerGram":                         208,
	"btypes/units.GramsPerKilogram":                     210,
	"btypes/units.GramsPerLiter":                        214,
	"btypes/units.GramsPerMilliliter":                   213,
	"btypes/units.GramsPerMinute":                       155,
	"btypes/units.GramsPerSecond":                       154,
	"btypes/units.GramsPerSquareMeter":                  235,
	"btypes/units.Gray":                                 225,
	"btypes/units.Hectopascals":                         133,
	"btypes/units.Henrys":                               171,
	"btypes/units.Hertz":                                27,
	"btypes/units.Horsepower":                           51,
	"btypes/units.Hours":                                71,
	"btypes/units.HundredthsSeconds":                    158,
	"btypes/units.ImperialGallons":                      81,
	"btypes/units.ImperialGallonsPerMinute":             86,
	"btypes/units.Inches":                               32,
	"btypes/units.InchesOfMercury":                      61,
	"btypes/units.InchesOfWater":                        58,
	"btypes/units.JouleSeconds":                         183,
	"btypes/units.Joules":                               16,
	"btypes/units.JoulesPerDegreeKelvin":                127,
	"btypes/units.JoulesPerKilogramDegreeKelvin":        128,
	"btypes/units.JoulesPerKilogramDryAir":              23,
	"btypes/units.KiloBtus":                             147,
	"btypes/units.KiloBtusPerHour":                      157,
	"btypes/units.Kilograms":                            39,
	"btypes/units.KilogramsPerCubicMeter":               186,
	"btypes/units.KilogramsPerHour":                     44,
	"btypes/units.KilogramsPerKilogram":                 209,
	"btypes/units.KilogramsPerMinute":                   43,
	"btypes/units.KilogramsPerSecond":                   42,
	"btypes/units.Kilohertz":                            129,
	"btypes/units.Kilohms":                              122,
	"btypes/units.Kilojoules":                           17,
	"btypes/units.KilojoulesPerDegreeKelvin":            151,
	"btypes/units.KilojoulesPerKilogram":                125,
	"btypes/units.KilojoulesPerKilogramDryAir":          149,
	"btypes/units.Kilometers":                           193,
	"btypes/units.KilometersPerHour":                    75,
	"btypes/units.Kilopascals":                          54,
	"btypes/units.KilovoltAmperes":                      9,
	"btypes/units.KilovoltAmperesReactive":              12,
	"btypes/units.Kilovolts":                            6,
	"btypes/units.KilowattHours":                        19,
	"btypes/units.KilowattHoursReactive":                204,
	"btypes/units.Kilowatts":                            48,
	"btypes/units.KwHoursPerSquareFoot":                 138,
	"btypes/units.KwHoursPerSquareMeter":                137,
	"btypes/units.Liters":                               82,
	"btypes/units.LitersPerHour":                        136,
	"btypes/units.LitersPerMinute":                      88,
	"btypes/units.LitersPerSecond":                      87,
	"btypes/units.Lumens":                               36,
	"btypes/units.Luxes":                                37,
	"btypes/units.MegaBtus":                             148,
	"btypes/units.Megabecquerels":                       224,
	"btypes/units.Megahertz":                            130,
	"btypes/units.Megajoules":                           126,
	"btypes/units.MegajoulesPerDegreeKelvin":            152,
	"btypes/units.MegajoulesPerKilogramDryAir":          150,
	"btypes/units.MegajoulesPerSquareFoot":              140,
	"btypes/units.MegajoulesPerSquareMeter":             139,
	"btypes/units.MegavoltAmperes":                      10,
	"btypes/units.MegavoltAmperesReactive":              13,
	"btypes/units.Megavolts":                            7,
	"btypes/units.MegawattHours":                        146,
	"btypes/units.MegawattHoursReactive":                205,
	"btypes/units.Megawatts":                            49,
	"btypes/units.Megohms":                              123,
	"btypes/units.Meters":                               31,
	"btypes/units.MetersPerHour":                        164,
	"btypes/units.MetersPerMinute":                      163,
	"btypes/units.MetersPerSecond":                      74,
	"btypes/units.MetersPerSecondPerSecond":             166,
	"btypes/units.MicrogramsPerCubicMeter":              219,
	"btypes/units.MicrogramsPerLiter":                   216,
	"btypes/units.Microgray":                            227,
	"btypes/units.Micrometers":                          194,
	"btypes/units.Microsiemens":                         190,
	"btypes/units.Microsieverts":                        230,
	"btypes/units.MicrosievertsPerHour":                 231,
	"btypes/units.MilesPerHour":                         78,
	"btypes/units.Milliamperes":                         2,
	"btypes/units.Millibars":                            134,
	"btypes/units.Milligrams":                           196,
	"btypes/units.MilligramsPerCubicMeter":              218,
	"btypes/units.MilligramsPerGram":                    211,
	"btypes/units.MilligramsPerKilogram":                212,
	"btypes/units.MilligramsPerLiter":                   215,
	"btypes/units.Milligray":                            226,
	"btypes/units.Milliliters":                          197,
	"btypes/units.MillilitersPerSecond":                 198,
	"btypes/units.Millimeters":                          30,
	"btypes/units.MillimetersOfMercury":                 59,
	"btypes/units.MillimetersOfWater":                   206,
	"btypes/units.MillimetersPerMinute":                 162,
	"btypes/units.MillimetersPerSecond":                 161,
	"btypes/units.Milliohms":                            145,
	"btypes/units.Milliseconds":                         159,
	"btypes/units.Millisiemens":                         202,
	"btypes/units.Millisieverts":                        229,
	"btypes/units.Millivolts":                           124,
	"btypes/units.Milliwatts":                           132,
	"btypes/units.Minutes":                              72,
	"btypes/units.MinutesPerDegreeKelvin":               236,
	"btypes/units.Months":                               68,
	"btypes/units.NanogramsPerCubicMeter":               220,
	"btypes/units.NephelometricTurbidityUnit":           233,
	"btypes/units.Newton":                               153,
	"btypes/units.NewtonMeters":                         160,
	"btypes/units.NewtonSeconds":                        187,
	"btypes/units.NewtonsPerMeter":                      188,
	"btypes/units.NoUnits":                              95,
	"btypes/units.OhmMeters":                            172,
	"btypes/units.Ohms":                                 4,
	"btypes/units.PartsPerBillion":                      97,
	"btypes/units.PartsPerMillion":                      96,
	"btypes/units.Pascals":                              53,
	"btypes/units.PerHour":                              131,
	"btypes/units.PerMille":                             207,
	"btypes/units.PerMinute":                            100,
	"btypes/units.PerSecond":                            101,
	"btypes/units.Percent":                              98,
	"btypes/units.PercentObscurationPerFoot":            143,
	"btypes/units.PercentObscurationPerMeter":           144,
	"btypes/units.PercentPerSecond":                     99,
	"btypes/units.PercentRelativeHumidity":              29,
	"btypes/units.Ph":                                   234,
	"btypes/units.PoundsForcePerSquareInch":             56,
	"btypes/units.PoundsMass":                           40,
	"btypes/units.PoundsMassPerHour":                    46,
	"btypes/units.PoundsMassPerMinute":                  45,
	"btypes/units.PoundsMassPerSecond":                  119,
	"btypes/units.PowerFactor":                          15,
	"btypes/units.PsiPerDegreeFahrenheit":               102,
	"btypes/units.Radians":                              103,
	"btypes/units.RadiansPerSecond":                     184,
	"btypes/units.RevolutionsPerMinute":                 104,
	"btypes/units.Seconds":                              73,
	"btypes/units.Siemens":                              173,
	"btypes/units.SiemensPerMeter":                      174,
	"btypes/units.Sieverts":                             228,
	"btypes/units.SquareCentimeters":                    116,
	"btypes/units.SquareFeet":                           1,
	"btypes/units.SquareInches":                         115,
	"btypes/units.SquareMeters":                         0,
	"btypes/units.SquareMetersPerNewton":                185,
	"btypes/units.Teslas":                               175,
	"btypes/units.Therms":                               21,
	"btypes/units.TonHours":                             22,
	"btypes/units.Tons":                                 41,
	"btypes/units.TonsPerHour":                          156,
	"btypes/units.TonsRefrigeration":                    52,
	"btypes/units.USGallonsPerHour":                     192,
	"btypes/units.USGallonsPerMinute":                   89,
	"btypes/units.UsGallons":                            83,
	"btypes/units.VoltAmperes":                          8,
	"btypes/units.VoltAmperesReactive":                  11,
	"btypes/units.Volts":                                5,
	"btypes/units.VoltsPerDegreeKelvin":                 176,
	"btypes/units.VoltsPerMeter":                        177,
	"btypes/units.WattHours":                            18,
	"btypes/units.WattHoursReactive":                    203,
	"btypes/units.Watts":                                47,
	"btypes/units.WattsPerMeterPerDegreeKelvin":         189,
	"btypes/units.WattsPerSquareFoot":                   34,
	"btypes/units.WattsPerSquareMeter":                  35,
	"btypes/units.WattsPerSquareMeterDegreeKelvin":      141,
	"btypes/units.Webers":                               178,
	"btypes/units.Weeks":                                69,
	"btypes/units.Years":                                67,
}
