-------------------------------- MODULE Names --------------------------------
(* What coded values are called in print.  The wording is the library's own   *)
(* business; the words that tell one meaning from another have to be there,   *)
(* and no two meanings may print the same.                                    *)
EXTENDS Codes, FiniteSets

(* [type -> sequence of <<value, words its text must have>>].  Values that are  *)
(* only reserved, or left to local use, may print alike.                       *)
NoMeaning == { <<"reserved">>, <<"local">> }
NameTable ==
  [ station |-> <<
      <<"BaseStation", <<"base", "station">> >>, <<"DependentAisBaseStation", <<"dependent", "base", "station">> >>,
      <<"MobileStation", <<"mobile", "station">> >>, <<"AidToNavigationStation", <<"aid", "navigation", "station">> >>,
      <<"AisReceivingStation", <<"receiving", "station">> >>, <<"LimitedBaseStation", <<"limited", "base", "station">> >>,
      <<"AisTransmittingStation", <<"transmitting", "station">> >>, <<"RepeaterStation", <<"repeater", "station">> >>,
      <<"Other", <<"other">> >> >>,
    class |-> << <<"Unknown", <<"unknown">> >>, <<"ClassA", <<"class", "a">> >>, <<"ClassB", <<"class", "b">> >> >>,
    meta |-> << <<"Operative", <<"operative">> >>, <<"ManualInputMode", <<"manual", "input">> >>,
      <<"DeadReckoningMode", <<"dead", "reckoning">> >>, <<"Inoperative", <<"inoperative">> >> >>,
    ship |-> <<
      <<"NotAvailable", <<"not", "available">> >>, <<"Reserved1", <<"reserved">> >>, <<"WingInGround", <<"wing", "ground">> >>,
      <<"Fishing", <<"fishing">> >>, <<"Towing", <<"towing">> >>, <<"TowingLong", <<"towing", "long">> >>,
      <<"DredgingOrUnderwaterOps", <<"dredging", "underwater">> >>, <<"DivingOps", <<"diving">> >>,
      <<"MilitaryOps", <<"military">> >>, <<"Sailing", <<"sailing">> >>, <<"PleasureCraft", <<"pleasure">> >>,
      <<"Reserved38", <<"reserved">> >>, <<"Reserved39", <<"reserved">> >>, <<"HighSpeedCraft", <<"high", "speed">> >>,
      <<"Pilot", <<"pilot">> >>, <<"SearchAndRescue", <<"search", "rescue">> >>, <<"Tug", <<"tug">> >>,
      <<"PortTender", <<"port", "tender">> >>, <<"AntiPollutionEquipment", <<"pollution">> >>,
      <<"LawEnforcement", <<"law", "enforcement">> >>, <<"SpareLocal56", <<"local">> >>, <<"SpareLocal57", <<"local">> >>,
      <<"MedicalTransport", <<"medical">> >>, <<"Noncombatant", <<"noncombatant">> >>, <<"Passenger", <<"passenger">> >>,
      <<"Cargo", <<"cargo">> >>, <<"Tanker", <<"tanker">> >>, <<"Other", <<"other">> >> >>,
    cargo |-> <<
      <<"Undefined", <<"undefined">> >>, <<"HazardousCategoryA", <<"hazardous", "a">> >>, <<"HazardousCategoryB", <<"hazardous", "b">> >>,
      <<"HazardousCategoryC", <<"hazardous", "c">> >>, <<"HazardousCategoryD", <<"hazardous", "d">> >>,
      <<"Reserved5", <<"reserved">> >>, <<"Reserved6", <<"reserved">> >>, <<"Reserved7", <<"reserved">> >>,
      <<"Reserved8", <<"reserved">> >>, <<"Reserved9", <<"reserved">> >> >>,
    fix |-> <<
      <<"Undefined", <<"undefined">> >>, <<"GPS", <<"gps">> >>, <<"GLONASS", <<"glonass">> >>, <<"GPSGLONASS", <<"gps", "glonass">> >>,
      <<"LoranC", <<"loran", "c">> >>, <<"Chayka", <<"chayka">> >>, <<"IntegratedNavigationSystem", <<"integrated">> >>,
      <<"Surveyed", <<"surveyed">> >>, <<"Galileo", <<"galileo">> >> >>,
    aid |-> <<
      <<"NotSpecified", <<"not", "specified">> >>, <<"ReferencePoint", <<"reference", "point">> >>, <<"Racon", <<"racon">> >>,
      <<"FixedStructure", <<>> >>, <<"Reserved4", <<"reserved">> >>,
      <<"LightWithoutSectors", <<"light", "without", "sectors">> >>, <<"LightWithSectors", <<"light", "with", "sectors">> >>,
      <<"LeadingLightFront", <<"leading", "light", "front">> >>, <<"LeadingLightRear", <<"leading", "light", "rear">> >>,
      <<"BeaconCardinalNorth", <<"cardinal", "beacon", "north">> >>, <<"BeaconCardinalEast", <<"cardinal", "beacon", "east">> >>,
      <<"BeaconCardinalSouth", <<"cardinal", "beacon", "south">> >>, <<"BeaconCardinalWest", <<"cardinal", "beacon", "west">> >>,
      <<"BeaconLateralPort", <<"lateral", "beacon", "port">> >>, <<"BeaconLateralStarboard", <<"lateral", "beacon", "starboard">> >>,
      <<"BeaconLateralPreferredChannelPort", <<"lateral", "beacon", "preferred", "channel", "port">> >>,
      <<"BeaconLateralPreferredChannelStarboard", <<"lateral", "beacon", "preferred", "channel", "starboard">> >>,
      <<"BeaconIsolatedDanger", <<"isolated", "danger", "beacon">> >>, <<"BeaconSafeWater", <<"safe", "water", "beacon">> >>,
      <<"BeaconSpecialMark", <<"special", "mark", "beacon">> >>,
      <<"CardinalMarkNorth", <<"cardinal", "mark", "north">> >>, <<"CardinalMarkEast", <<"cardinal", "mark", "east">> >>,
      <<"CardinalMarkSouth", <<"cardinal", "mark", "south">> >>, <<"CardinalMarkWest", <<"cardinal", "mark", "west">> >>,
      <<"PortHandMark", <<"port", "hand">> >>, <<"StarboardHandMark", <<"starboard", "hand">> >>,
      <<"PreferredChannelPort", <<"preferred", "channel", "port">> >>,
      <<"PreferredChannelStarboard", <<"preferred", "channel", "starboard">> >>,
      <<"IsolatedDanger", <<"isolated", "danger">> >>, <<"SafeWater", <<"safe", "water">> >>, <<"SpecialMark", <<"special", "mark">> >>,
      <<"LightVessel", <<"light", "vessel">> >> >>,
    system |-> <<
      <<"Combination", <<"combination">> >>, <<"Gps", <<"gps">> >>, <<"Glonass", <<"glonass">> >>, <<"Galileo", <<"galileo">> >>,
      <<"Beidou", <<"beidou">> >>, <<"Navic", <<"navic">> >>, <<"Qzss", <<"qzss">> >>, <<"Other", <<"other">> >> >>,
    faa |-> << <<"Autonomous", <<"a">> >>, <<"Differential", <<"d">> >>, <<"Estimated", <<"e">> >>, <<"NotValid", <<"n">> >>,
      <<"Simulator", <<"s">> >> >>,
    gsa |-> << <<"NotAvailable", <<"available">> >>, <<"Fix2D", <<"2d">> >>, <<"Fix3D", <<"3d">> >> >>,
    quality |-> <<
      <<"Invalid", <<"invalid">> >>, <<"GpsFix", <<"gps">> >>, <<"DGpsFix", <<"dgps">> >>, <<"PpsFix", <<"pps">> >>,
      <<"RealTimeKinematic", <<"real", "time", "kinematic">> >>, <<"RealTimeKinematicFloat", <<"real", "time", "kinematic", "floating">> >>,
      <<"DeadReckoning", <<"dead", "reckoning">> >>, <<"ManualInputMode", <<"manual", "input">> >>,
      <<"SimulationMode", <<"simulation">> >> >> ]

(* What a value is when nothing is known about it. *)
Defaults == << <<"Station", "Other">>, <<"AisClass", "Unknown">>, <<"NavigationStatus", "NotDefined">>, <<"ShipType", "NotAvailable">>,
               <<"CargoType", "Undefined">>, <<"NavAidType", "NotSpecified">> >>

(* The words of a text: runs of letters and digits, in small letters. *)
IsWord(c) == IsDigit(c) \/ (c >= 97 /\ c <= 122)
WordsOf(s) ==
  LET low == [i \in 1..Len(s) |-> Lower(s[i])]
      all == FoldLeft(LAMBDA acc, c : IF IsWord(c) THEN [acc EXCEPT ![Len(acc)] = Append(@, c)] ELSE Append(acc, <<>>),
                      << <<>> >>, low)
  IN { all[i] : i \in 1..Len(all) } \ { <<>> }

Has(text, ws) == \A i \in 1..Len(ws) : Str(ws[i]) \in WordsOf(text)

(* Do these printed texts, <<value, text>> for every value of the type, say what they should? *)
Legible(t, shown) ==
  LET tab == NameTable[t] IN
  /\ Len(shown) = Len(tab)
  /\ \A i \in 1..Len(tab) : shown[i][1] = tab[i][1] /\ shown[i][2] # <<>> /\ Has(shown[i][2], tab[i][2])
  /\ \A i, j \in 1..Len(tab) : i < j /\ shown[i][2] = shown[j][2] => tab[i][2] \in NoMeaning /\ tab[j][2] \in NoMeaning
  /\ t = "faa" => \A i \in 1..Len(tab) : Len(shown[i][2]) = 1
=============================================================================
