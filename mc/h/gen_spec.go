//go:build go1.22

package main

// Code generated by tools/genspec.py from the OCPP 1.6 JSON schemas and the OCPP 1.5 WSDLs. DO NOT EDIT.

var jsonSpecText = map[string]string{
	"Authorize":                             `{"k":"obj","p":[{"n":"idTag","r":true,"s":{"k":"str","m":20}}],"x":true}`,
	"AuthorizeResponse":                     `{"k":"obj","p":[{"n":"idTagInfo","r":true,"s":{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}},{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}}],"x":false}}],"x":true}`,
	"BootNotification":                      `{"k":"obj","p":[{"n":"chargePointVendor","r":true,"s":{"k":"str","m":20}},{"n":"chargePointModel","r":true,"s":{"k":"str","m":20}},{"n":"chargePointSerialNumber","r":false,"s":{"k":"str","m":25}},{"n":"chargeBoxSerialNumber","r":false,"s":{"k":"str","m":25}},{"n":"firmwareVersion","r":false,"s":{"k":"str","m":50}},{"n":"iccid","r":false,"s":{"k":"str","m":20}},{"n":"imsi","r":false,"s":{"k":"str","m":20}},{"n":"meterType","r":false,"s":{"k":"str","m":25}},{"n":"meterSerialNumber","r":false,"s":{"k":"str","m":25}}],"x":true}`,
	"BootNotificationResponse":              `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Pending","Rejected"]}},{"n":"currentTime","r":true,"s":{"k":"time"}},{"n":"interval","r":true,"s":{"k":"num"}}],"x":true}`,
	"CancelReservation":                     `{"k":"obj","p":[{"n":"reservationId","r":true,"s":{"k":"int"}}],"x":true}`,
	"CancelReservationResponse":             `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"ChangeAvailability":                    `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"type","r":true,"s":{"k":"str","e":["Inoperative","Operative"]}}],"x":true}`,
	"ChangeAvailabilityResponse":            `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","Scheduled"]}}],"x":true}`,
	"ChangeConfiguration":                   `{"k":"obj","p":[{"n":"key","r":true,"s":{"k":"str","m":50}},{"n":"value","r":true,"s":{"k":"str","m":500}}],"x":true}`,
	"ChangeConfigurationResponse":           `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","RebootRequired","NotSupported"]}}],"x":true}`,
	"ClearCache":                            `{"k":"obj","p":[],"x":true}`,
	"ClearCacheResponse":                    `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"ClearChargingProfile":                  `{"k":"obj","p":[{"n":"id","r":false,"s":{"k":"int"}},{"n":"connectorId","r":false,"s":{"k":"int"}},{"n":"chargingProfilePurpose","r":false,"s":{"k":"str","e":["ChargePointMaxProfile","TxDefaultProfile","TxProfile"]}},{"n":"stackLevel","r":false,"s":{"k":"int"}}],"x":true}`,
	"ClearChargingProfileResponse":          `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Unknown"]}}],"x":true}`,
	"DataTransfer":                          `{"k":"obj","p":[{"n":"vendorId","r":true,"s":{"k":"str","m":255}},{"n":"messageId","r":false,"s":{"k":"str","m":50}},{"n":"data","r":false,"s":{"k":"str"}}],"x":true}`,
	"DataTransferResponse":                  `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","UnknownMessageId","UnknownVendorId"]}},{"n":"data","r":false,"s":{"k":"str"}}],"x":true}`,
	"DiagnosticsStatusNotification":         `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Idle","Uploaded","UploadFailed","Uploading"]}}],"x":true}`,
	"DiagnosticsStatusNotificationResponse": `{"k":"obj","p":[],"x":true}`,
	"FirmwareStatusNotification":            `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Downloaded","DownloadFailed","Downloading","Idle","InstallationFailed","Installing","Installed"]}}],"x":true}`,
	"FirmwareStatusNotificationResponse":    `{"k":"obj","p":[],"x":true}`,
	"GetCompositeSchedule":                  `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"duration","r":true,"s":{"k":"int"}},{"n":"chargingRateUnit","r":false,"s":{"k":"str","e":["A","W"]}}],"x":true}`,
	"GetCompositeScheduleResponse":          `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}},{"n":"connectorId","r":false,"s":{"k":"int"}},{"n":"scheduleStart","r":false,"s":{"k":"time"}},{"n":"chargingSchedule","r":false,"s":{"k":"obj","p":[{"n":"duration","r":false,"s":{"k":"int"}},{"n":"startSchedule","r":false,"s":{"k":"time"}},{"n":"chargingRateUnit","r":true,"s":{"k":"str","e":["A","W"]}},{"n":"chargingSchedulePeriod","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"startPeriod","r":true,"s":{"k":"int"}},{"n":"limit","r":true,"s":{"k":"num","d":1}},{"n":"numberPhases","r":false,"s":{"k":"int"}}],"x":false}}},{"n":"minChargingRate","r":false,"s":{"k":"num","d":1}}],"x":false}}],"x":true}`,
	"GetConfiguration":                      `{"k":"obj","p":[{"n":"key","r":false,"s":{"k":"arr","i":{"k":"str","m":50}}}],"x":true}`,
	"GetConfigurationResponse":              `{"k":"obj","p":[{"n":"configurationKey","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"key","r":true,"s":{"k":"str","m":50}},{"n":"readonly","r":true,"s":{"k":"bool"}},{"n":"value","r":false,"s":{"k":"str","m":500}}],"x":false}}},{"n":"unknownKey","r":false,"s":{"k":"arr","i":{"k":"str","m":50}}}],"x":true}`,
	"GetDiagnostics":                        `{"k":"obj","p":[{"n":"location","r":true,"s":{"k":"uri"}},{"n":"retries","r":false,"s":{"k":"int"}},{"n":"retryInterval","r":false,"s":{"k":"int"}},{"n":"startTime","r":false,"s":{"k":"time"}},{"n":"stopTime","r":false,"s":{"k":"time"}}],"x":true}`,
	"GetDiagnosticsResponse":                `{"k":"obj","p":[{"n":"fileName","r":false,"s":{"k":"str","m":255}}],"x":true}`,
	"GetLocalListVersion":                   `{"k":"obj","p":[],"x":true}`,
	"GetLocalListVersionResponse":           `{"k":"obj","p":[{"n":"listVersion","r":true,"s":{"k":"int"}}],"x":true}`,
	"Heartbeat":                             `{"k":"obj","p":[],"x":true}`,
	"HeartbeatResponse":                     `{"k":"obj","p":[{"n":"currentTime","r":true,"s":{"k":"time"}}],"x":true}`,
	"MeterValues":                           `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"transactionId","r":false,"s":{"k":"int"}},{"n":"meterValue","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"sampledValue","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"value","r":true,"s":{"k":"str"}},{"n":"context","r":false,"s":{"k":"str","e":["Interruption.Begin","Interruption.End","Sample.Clock","Sample.Periodic","Transaction.Begin","Transaction.End","Trigger","Other"]}},{"n":"format","r":false,"s":{"k":"str","e":["Raw","SignedData"]}},{"n":"measurand","r":false,"s":{"k":"str","e":["Energy.Active.Export.Register","Energy.Active.Import.Register","Energy.Reactive.Export.Register","Energy.Reactive.Import.Register","Energy.Active.Export.Interval","Energy.Active.Import.Interval","Energy.Reactive.Export.Interval","Energy.Reactive.Import.Interval","Power.Active.Export","Power.Active.Import","Power.Offered","Power.Reactive.Export","Power.Reactive.Import","Power.Factor","Current.Import","Current.Export","Current.Offered","Voltage","Frequency","Temperature","SoC","RPM"]}},{"n":"phase","r":false,"s":{"k":"str","e":["L1","L2","L3","N","L1-N","L2-N","L3-N","L1-L2","L2-L3","L3-L1"]}},{"n":"location","r":false,"s":{"k":"str","e":["Cable","EV","Inlet","Outlet","Body"]}},{"n":"unit","r":false,"s":{"k":"str","e":["Wh","kWh","varh","kvarh","W","kW","VA","kVA","var","kvar","A","V","K","Celcius","Fahrenheit","Percent"]}}],"x":false}}}],"x":false}}}],"x":true}`,
	"MeterValuesResponse":                   `{"k":"obj","p":[],"x":true}`,
	"RemoteStartTransaction":                `{"k":"obj","p":[{"n":"connectorId","r":false,"s":{"k":"int"}},{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"chargingProfile","r":false,"s":{"k":"obj","p":[{"n":"chargingProfileId","r":true,"s":{"k":"int"}},{"n":"transactionId","r":false,"s":{"k":"int"}},{"n":"stackLevel","r":true,"s":{"k":"int"}},{"n":"chargingProfilePurpose","r":true,"s":{"k":"str","e":["ChargePointMaxProfile","TxDefaultProfile","TxProfile"]}},{"n":"chargingProfileKind","r":true,"s":{"k":"str","e":["Absolute","Recurring","Relative"]}},{"n":"recurrencyKind","r":false,"s":{"k":"str","e":["Daily","Weekly"]}},{"n":"validFrom","r":false,"s":{"k":"time"}},{"n":"validTo","r":false,"s":{"k":"time"}},{"n":"chargingSchedule","r":true,"s":{"k":"obj","p":[{"n":"duration","r":false,"s":{"k":"int"}},{"n":"startSchedule","r":false,"s":{"k":"time"}},{"n":"chargingRateUnit","r":true,"s":{"k":"str","e":["A","W"]}},{"n":"chargingSchedulePeriod","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"startPeriod","r":true,"s":{"k":"int"}},{"n":"limit","r":true,"s":{"k":"num","d":1}},{"n":"numberPhases","r":false,"s":{"k":"int"}}],"x":false}}},{"n":"minChargingRate","r":false,"s":{"k":"num","d":1}}],"x":false}}],"x":false}}],"x":true}`,
	"RemoteStartTransactionResponse":        `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"RemoteStopTransaction":                 `{"k":"obj","p":[{"n":"transactionId","r":true,"s":{"k":"int"}}],"x":true}`,
	"RemoteStopTransactionResponse":         `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"ReserveNow":                            `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"expiryDate","r":true,"s":{"k":"time"}},{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}},{"n":"reservationId","r":true,"s":{"k":"int"}}],"x":true}`,
	"ReserveNowResponse":                    `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Faulted","Occupied","Rejected","Unavailable"]}}],"x":true}`,
	"Reset":                                 `{"k":"obj","p":[{"n":"type","r":true,"s":{"k":"str","e":["Hard","Soft"]}}],"x":true}`,
	"ResetResponse":                         `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"SendLocalList":                         `{"k":"obj","p":[{"n":"listVersion","r":true,"s":{"k":"int"}},{"n":"localAuthorizationList","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"idTagInfo","r":false,"s":{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}},{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}}],"x":false}}],"x":false}}},{"n":"updateType","r":true,"s":{"k":"str","e":["Differential","Full"]}}],"x":true}`,
	"SendLocalListResponse":                 `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Failed","NotSupported","VersionMismatch"]}}],"x":true}`,
	"SetChargingProfile":                    `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"csChargingProfiles","r":true,"s":{"k":"obj","p":[{"n":"chargingProfileId","r":true,"s":{"k":"int"}},{"n":"transactionId","r":false,"s":{"k":"int"}},{"n":"stackLevel","r":true,"s":{"k":"int"}},{"n":"chargingProfilePurpose","r":true,"s":{"k":"str","e":["ChargePointMaxProfile","TxDefaultProfile","TxProfile"]}},{"n":"chargingProfileKind","r":true,"s":{"k":"str","e":["Absolute","Recurring","Relative"]}},{"n":"recurrencyKind","r":false,"s":{"k":"str","e":["Daily","Weekly"]}},{"n":"validFrom","r":false,"s":{"k":"time"}},{"n":"validTo","r":false,"s":{"k":"time"}},{"n":"chargingSchedule","r":true,"s":{"k":"obj","p":[{"n":"duration","r":false,"s":{"k":"int"}},{"n":"startSchedule","r":false,"s":{"k":"time"}},{"n":"chargingRateUnit","r":true,"s":{"k":"str","e":["A","W"]}},{"n":"chargingSchedulePeriod","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"startPeriod","r":true,"s":{"k":"int"}},{"n":"limit","r":true,"s":{"k":"num","d":1}},{"n":"numberPhases","r":false,"s":{"k":"int"}}],"x":false}}},{"n":"minChargingRate","r":false,"s":{"k":"num","d":1}}],"x":false}}],"x":false}}],"x":true}`,
	"SetChargingProfileResponse":            `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","NotSupported"]}}],"x":true}`,
	"StartTransaction":                      `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"meterStart","r":true,"s":{"k":"int"}},{"n":"reservationId","r":false,"s":{"k":"int"}},{"n":"timestamp","r":true,"s":{"k":"time"}}],"x":true}`,
	"StartTransactionResponse":              `{"k":"obj","p":[{"n":"idTagInfo","r":true,"s":{"k":"obj","p":[{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}},{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}}],"x":false}},{"n":"transactionId","r":true,"s":{"k":"int"}}],"x":true}`,
	"StatusNotification":                    `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"errorCode","r":true,"s":{"k":"str","e":["ConnectorLockFailure","EVCommunicationError","GroundFailure","HighTemperature","InternalError","LocalListConflict","NoError","OtherError","OverCurrentFailure","PowerMeterFailure","PowerSwitchFailure","ReaderFailure","ResetFailure","UnderVoltage","OverVoltage","WeakSignal"]}},{"n":"info","r":false,"s":{"k":"str","m":50}},{"n":"status","r":true,"s":{"k":"str","e":["Available","Preparing","Charging","SuspendedEVSE","SuspendedEV","Finishing","Reserved","Unavailable","Faulted"]}},{"n":"timestamp","r":false,"s":{"k":"time"}},{"n":"vendorId","r":false,"s":{"k":"str","m":255}},{"n":"vendorErrorCode","r":false,"s":{"k":"str","m":50}}],"x":true}`,
	"StatusNotificationResponse":            `{"k":"obj","p":[],"x":true}`,
	"StopTransaction":                       `{"k":"obj","p":[{"n":"idTag","r":false,"s":{"k":"str","m":20}},{"n":"meterStop","r":true,"s":{"k":"int"}},{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"transactionId","r":true,"s":{"k":"int"}},{"n":"reason","r":false,"s":{"k":"str","e":["EmergencyStop","EVDisconnected","HardReset","Local","Other","PowerLoss","Reboot","Remote","SoftReset","UnlockCommand","DeAuthorized"]}},{"n":"transactionData","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"sampledValue","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"value","r":true,"s":{"k":"str"}},{"n":"context","r":false,"s":{"k":"str","e":["Interruption.Begin","Interruption.End","Sample.Clock","Sample.Periodic","Transaction.Begin","Transaction.End","Trigger","Other"]}},{"n":"format","r":false,"s":{"k":"str","e":["Raw","SignedData"]}},{"n":"measurand","r":false,"s":{"k":"str","e":["Energy.Active.Export.Register","Energy.Active.Import.Register","Energy.Reactive.Export.Register","Energy.Reactive.Import.Register","Energy.Active.Export.Interval","Energy.Active.Import.Interval","Energy.Reactive.Export.Interval","Energy.Reactive.Import.Interval","Power.Active.Export","Power.Active.Import","Power.Offered","Power.Reactive.Export","Power.Reactive.Import","Power.Factor","Current.Import","Current.Export","Current.Offered","Voltage","Frequency","Temperature","SoC","RPM"]}},{"n":"phase","r":false,"s":{"k":"str","e":["L1","L2","L3","N","L1-N","L2-N","L3-N","L1-L2","L2-L3","L3-L1"]}},{"n":"location","r":false,"s":{"k":"str","e":["Cable","EV","Inlet","Outlet","Body"]}},{"n":"unit","r":false,"s":{"k":"str","e":["Wh","kWh","varh","kvarh","W","kW","VA","kVA","var","kvar","A","V","K","Celcius","Fahrenheit","Percent"]}}],"x":false}}}],"x":false}}}],"x":true}`,
	"StopTransactionResponse":               `{"k":"obj","p":[{"n":"idTagInfo","r":false,"s":{"k":"obj","p":[{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}},{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}}],"x":false}}],"x":true}`,
	"TriggerMessage":                        `{"k":"obj","p":[{"n":"requestedMessage","r":true,"s":{"k":"str","e":["BootNotification","DiagnosticsStatusNotification","FirmwareStatusNotification","Heartbeat","MeterValues","StatusNotification"]}},{"n":"connectorId","r":false,"s":{"k":"int"}}],"x":true}`,
	"TriggerMessageResponse":                `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","NotImplemented"]}}],"x":true}`,
	"UnlockConnector":                       `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}}],"x":true}`,
	"UnlockConnectorResponse":               `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Unlocked","UnlockFailed","NotSupported"]}}],"x":true}`,
	"UpdateFirmware":                        `{"k":"obj","p":[{"n":"location","r":true,"s":{"k":"uri"}},{"n":"retries","r":false,"s":{"k":"num"}},{"n":"retrieveDate","r":true,"s":{"k":"time"}},{"n":"retryInterval","r":false,"s":{"k":"num"}}],"x":true}`,
	"UpdateFirmwareResponse":                `{"k":"obj","p":[],"x":true}`,
}

var wsdlSpecText = map[string]string{
	"Cs authorizeRequest":                      `{"k":"obj","p":[{"n":"idTag","r":true,"s":{"k":"str","m":20}}],"x":true}`,
	"Cs authorizeResponse":                     `{"k":"obj","p":[{"n":"idTagInfo","r":true,"s":{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}},{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}}],"x":true}}],"x":true}`,
	"Cs startTransactionRequest":               `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"meterStart","r":true,"s":{"k":"int"}},{"n":"reservationId","r":false,"s":{"k":"int"}}],"x":true}`,
	"Cs startTransactionResponse":              `{"k":"obj","p":[{"n":"transactionId","r":true,"s":{"k":"int"}},{"n":"idTagInfo","r":true,"s":{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}},{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}}],"x":true}}],"x":true}`,
	"Cs stopTransactionRequest":                `{"k":"obj","p":[{"n":"transactionId","r":true,"s":{"k":"int"}},{"n":"idTag","r":false,"s":{"k":"str","m":20}},{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"meterStop","r":true,"s":{"k":"int"}},{"n":"transactionData","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"value","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"value","r":true,"s":{"k":"str"},"t":true},{"n":"context","r":false,"s":{"k":"str","e":["Interruption.Begin","Interruption.End","Sample.Clock","Sample.Periodic","Transaction.Begin","Transaction.End"]},"a":true},{"n":"format","r":false,"s":{"k":"str","e":["Raw","SignedData"]},"a":true},{"n":"measurand","r":false,"s":{"k":"str","e":["Energy.Active.Export.Register","Energy.Active.Import.Register","Energy.Reactive.Export.Register","Energy.Reactive.Import.Register","Energy.Active.Export.Interval","Energy.Active.Import.Interval","Energy.Reactive.Export.Interval","Energy.Reactive.Import.Interval","Power.Active.Export","Power.Active.Import","Power.Reactive.Export","Power.Reactive.Import","Current.Export","Current.Import","Voltage","Temperature"]},"a":true},{"n":"location","r":false,"s":{"k":"str","e":["Inlet","Outlet","Body"]},"a":true},{"n":"unit","r":false,"s":{"k":"str","e":["Wh","kWh","varh","kvarh","W","kW","var","kvar","Amp","Volt","Celsius"]},"a":true}],"x":true}}}],"x":true}},"w":"values"}],"x":true}`,
	"Cs stopTransactionResponse":               `{"k":"obj","p":[{"n":"idTagInfo","r":false,"s":{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}},{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}}],"x":true}}],"x":true}`,
	"Cs heartbeatRequest":                      `{"k":"obj","p":[],"x":true}`,
	"Cs heartbeatResponse":                     `{"k":"obj","p":[{"n":"currentTime","r":true,"s":{"k":"time"}}],"x":true}`,
	"Cs meterValuesRequest":                    `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"transactionId","r":false,"s":{"k":"int"}},{"n":"values","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"timestamp","r":true,"s":{"k":"time"}},{"n":"value","r":true,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"value","r":true,"s":{"k":"str"},"t":true},{"n":"context","r":false,"s":{"k":"str","e":["Interruption.Begin","Interruption.End","Sample.Clock","Sample.Periodic","Transaction.Begin","Transaction.End"]},"a":true},{"n":"format","r":false,"s":{"k":"str","e":["Raw","SignedData"]},"a":true},{"n":"measurand","r":false,"s":{"k":"str","e":["Energy.Active.Export.Register","Energy.Active.Import.Register","Energy.Reactive.Export.Register","Energy.Reactive.Import.Register","Energy.Active.Export.Interval","Energy.Active.Import.Interval","Energy.Reactive.Export.Interval","Energy.Reactive.Import.Interval","Power.Active.Export","Power.Active.Import","Power.Reactive.Export","Power.Reactive.Import","Current.Export","Current.Import","Voltage","Temperature"]},"a":true},{"n":"location","r":false,"s":{"k":"str","e":["Inlet","Outlet","Body"]},"a":true},{"n":"unit","r":false,"s":{"k":"str","e":["Wh","kWh","varh","kvarh","W","kW","var","kvar","Amp","Volt","Celsius"]},"a":true}],"x":true}}}],"x":true}}}],"x":true}`,
	"Cs meterValuesResponse":                   `{"k":"obj","p":[],"x":true}`,
	"Cs bootNotificationRequest":               `{"k":"obj","p":[{"n":"chargePointVendor","r":true,"s":{"k":"str","m":20}},{"n":"chargePointModel","r":true,"s":{"k":"str","m":20}},{"n":"chargePointSerialNumber","r":false,"s":{"k":"str","m":25}},{"n":"chargeBoxSerialNumber","r":false,"s":{"k":"str","m":25}},{"n":"firmwareVersion","r":false,"s":{"k":"str","m":50}},{"n":"iccid","r":false,"s":{"k":"str","m":20}},{"n":"imsi","r":false,"s":{"k":"str","m":20}},{"n":"meterType","r":false,"s":{"k":"str","m":25}},{"n":"meterSerialNumber","r":false,"s":{"k":"str","m":25}}],"x":true}`,
	"Cs bootNotificationResponse":              `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}},{"n":"currentTime","r":true,"s":{"k":"time"}},{"n":"heartbeatInterval","r":true,"s":{"k":"int"}}],"x":true}`,
	"Cs statusNotificationRequest":             `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"status","r":true,"s":{"k":"str","e":["Available","Occupied","Faulted","Unavailable","Reserved"]}},{"n":"errorCode","r":true,"s":{"k":"str","e":["ConnectorLockFailure","HighTemperature","Mode3Error","NoError","PowerMeterFailure","PowerSwitchFailure","ReaderFailure","ResetFailure","GroundFailure","OverCurrentFailure","UnderVoltage","WeakSignal","OtherError"]}},{"n":"info","r":false,"s":{"k":"str"}},{"n":"timestamp","r":false,"s":{"k":"time"}},{"n":"vendorId","r":false,"s":{"k":"str"}},{"n":"vendorErrorCode","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cs statusNotificationResponse":            `{"k":"obj","p":[],"x":true}`,
	"Cs firmwareStatusNotificationRequest":     `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Downloaded","DownloadFailed","InstallationFailed","Installed"]}}],"x":true}`,
	"Cs firmwareStatusNotificationResponse":    `{"k":"obj","p":[],"x":true}`,
	"Cs diagnosticsStatusNotificationRequest":  `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Uploaded","UploadFailed"]}}],"x":true}`,
	"Cs diagnosticsStatusNotificationResponse": `{"k":"obj","p":[],"x":true}`,
	"Cs dataTransferRequest":                   `{"k":"obj","p":[{"n":"vendorId","r":true,"s":{"k":"str"}},{"n":"messageId","r":false,"s":{"k":"str"}},{"n":"data","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cs dataTransferResponse":                  `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","UnknownMessageId","UnknownVendorId"]}},{"n":"data","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cp unlockConnectorRequest":                `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}}],"x":true}`,
	"Cp unlockConnectorResponse":               `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"Cp resetRequest":                          `{"k":"obj","p":[{"n":"type","r":true,"s":{"k":"str","e":["Hard","Soft"]}}],"x":true}`,
	"Cp resetResponse":                         `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"Cp changeAvailabilityRequest":             `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"type","r":true,"s":{"k":"str","e":["Inoperative","Operative"]}}],"x":true}`,
	"Cp changeAvailabilityResponse":            `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","Scheduled"]}}],"x":true}`,
	"Cp getDiagnosticsRequest":                 `{"k":"obj","p":[{"n":"location","r":true,"s":{"k":"uri"}},{"n":"startTime","r":false,"s":{"k":"time"}},{"n":"stopTime","r":false,"s":{"k":"time"}},{"n":"retries","r":false,"s":{"k":"int"}},{"n":"retryInterval","r":false,"s":{"k":"int"}}],"x":true}`,
	"Cp getDiagnosticsResponse":                `{"k":"obj","p":[{"n":"fileName","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cp clearCacheRequest":                     `{"k":"obj","p":[],"x":true}`,
	"Cp clearCacheResponse":                    `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"Cp updateFirmwareRequest":                 `{"k":"obj","p":[{"n":"retrieveDate","r":true,"s":{"k":"time"}},{"n":"location","r":true,"s":{"k":"uri"}},{"n":"retries","r":false,"s":{"k":"int"}},{"n":"retryInterval","r":false,"s":{"k":"int"}}],"x":true}`,
	"Cp updateFirmwareResponse":                `{"k":"obj","p":[],"x":true}`,
	"Cp changeConfigurationRequest":            `{"k":"obj","p":[{"n":"key","r":true,"s":{"k":"str"}},{"n":"value","r":true,"s":{"k":"str"}}],"x":true}`,
	"Cp changeConfigurationResponse":           `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","NotSupported"]}}],"x":true}`,
	"Cp remoteStartTransactionRequest":         `{"k":"obj","p":[{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"connectorId","r":false,"s":{"k":"int"}}],"x":true}`,
	"Cp remoteStartTransactionResponse":        `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"Cp remoteStopTransactionRequest":          `{"k":"obj","p":[{"n":"transactionId","r":true,"s":{"k":"int"}}],"x":true}`,
	"Cp remoteStopTransactionResponse":         `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"Cp cancelReservationRequest":              `{"k":"obj","p":[{"n":"reservationId","r":true,"s":{"k":"int"}}],"x":true}`,
	"Cp cancelReservationResponse":             `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected"]}}],"x":true}`,
	"Cp dataTransferRequest":                   `{"k":"obj","p":[{"n":"vendorId","r":true,"s":{"k":"str"}},{"n":"messageId","r":false,"s":{"k":"str"}},{"n":"data","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cp dataTransferResponse":                  `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Rejected","UnknownMessageId","UnknownVendorId"]}},{"n":"data","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cp getConfigurationRequest":               `{"k":"obj","p":[{"n":"key","r":false,"s":{"k":"arr","i":{"k":"str"}}}],"x":true}`,
	"Cp getConfigurationResponse":              `{"k":"obj","p":[{"n":"configurationKey","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"key","r":true,"s":{"k":"str"}},{"n":"readonly","r":true,"s":{"k":"bool"}},{"n":"value","r":false,"s":{"k":"str"}}],"x":true}}},{"n":"unknownKey","r":false,"s":{"k":"arr","i":{"k":"str"}}}],"x":true}`,
	"Cp getLocalListVersionRequest":            `{"k":"obj","p":[],"x":true}`,
	"Cp getLocalListVersionResponse":           `{"k":"obj","p":[{"n":"listVersion","r":true,"s":{"k":"int"}}],"x":true}`,
	"Cp reserveNowRequest":                     `{"k":"obj","p":[{"n":"connectorId","r":true,"s":{"k":"int"}},{"n":"expiryDate","r":true,"s":{"k":"time"}},{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}},{"n":"reservationId","r":true,"s":{"k":"int"}}],"x":true}`,
	"Cp reserveNowResponse":                    `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Faulted","Occupied","Rejected","Unavailable"]}}],"x":true}`,
	"Cp sendLocalListRequest":                  `{"k":"obj","p":[{"n":"updateType","r":true,"s":{"k":"str","e":["Differential","Full"]}},{"n":"listVersion","r":true,"s":{"k":"int"}},{"n":"localAuthorisationList","r":false,"s":{"k":"arr","i":{"k":"obj","p":[{"n":"idTag","r":true,"s":{"k":"str","m":20}},{"n":"idTagInfo","r":false,"s":{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Blocked","Expired","Invalid","ConcurrentTx"]}},{"n":"expiryDate","r":false,"s":{"k":"time"}},{"n":"parentIdTag","r":false,"s":{"k":"str","m":20}}],"x":true}}],"x":true}}},{"n":"hash","r":false,"s":{"k":"str"}}],"x":true}`,
	"Cp sendLocalListResponse":                 `{"k":"obj","p":[{"n":"status","r":true,"s":{"k":"str","e":["Accepted","Failed","HashError","NotSupported","VersionMismatch"]}},{"n":"hash","r":false,"s":{"k":"str"}}],"x":true}`,
}
