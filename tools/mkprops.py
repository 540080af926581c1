"""Writes properties.jsonl (kept as Python so that statements stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
B="mt_metadata/"; T=B+"transfer_functions/"; TS=B+"timeseries/"
p("C01","Field descriptions never depend on the cache",
 "The field descriptions a user gets for a metadata class (field names, nested fields, types, units, defaults, required flags) are exactly those its definition implies, whatever the cache directory holds and however many threads or processes ask at once. A cache file that is missing, cut short, emptied, replaced by something else, unreadable, unwritable, or left behind by a different definition of the class costs time only: the lookup neither fails nor answers differently. A lookup that is interrupted by an error leaves nothing behind that changes a later answer.",
 ["schedules","crash_points","fault_sequences","histories"],
 "all interleavings of concurrent lookups by threads and processes, all disk faults and crash points while a cache file is read or written, all prior contents of the cache directory",
 "Tests run with a warm or an empty cache, one thread and a working disk; none of them cuts a cache file, changes a nested class between two versions, or lets two lookups overlap.",
 [B+"base/pydantic_helpers.py",B+"base/metadata.py"],
 [("in-memory cache under a re-entrant lock",B+"base/pydantic_helpers.py:get_all_fields_serializable"),("definition fingerprint in the cache file name",B+"base/pydantic_helpers.py:_model_fingerprint"),("best-effort load and save",B+"base/pydantic_helpers.py:_load_fields_from_disk,_save_fields_to_disk")],
 [("cache directory","JSON file per class and fingerprint",B+"base/pydantic_helpers.py:_cache_dir")])
p("C02","A transfer function survives being saved as EDI",
 "A transfer function written to an EDI file and read back by a later process has the same station name, latitude, longitude, elevation, periods, impedance, tipper and their errors, to the digits the format prints and up to the order of the periods. This holds for every chain of saves and loads, through any mixture of formats, and also when an earlier save was cut off by a crash or a full disk and then repeated.",
 ["inputs","histories","crash_points","fault_sequences"],
 "all transfer functions the format can express (positions in every hemisphere, any period set, with or without tipper or errors), all chains of save and load across formats, all crash points and disk faults in earlier saves",
 "Tests read fixed sample files and compare with recorded values; few write a file and read it back, none does so for generated values, over several hops, or after a crashed save.",
 [T+"core.py",T+"io/edi/edi.py",T+"io/edi/metadata/header.py",T+"io/edi/metadata/define_measurement.py"],
 [("EDI writer and reader",T+"io/edi/edi.py:EDI.write,EDI.read"),("conversion to and from the common object",T+"core.py:to_edi,from_edi")])
p("C03","A transfer function survives being saved as EMTF XML",
 "A transfer function written to an EMTF XML file and read back by a later process has the same station name, survey, project, latitude, longitude, elevation, time span, periods, impedance, tipper, their errors and, when present, covariances, to the digits the format prints. This holds for every chain of saves and loads, through any mixture of formats, and also when an earlier save was cut off by a crash or a full disk and then repeated.",
 ["inputs","histories","crash_points","fault_sequences"],
 "all transfer functions the format can express, all chains of save and load across formats, all crash points and disk faults in earlier saves",
 "Tests read fixed sample files; the files the library itself writes are hardly ever read back, and never for generated values, over several hops, or after a crashed save.",
 [T+"core.py",T+"io/emtfxml/emtfxml.py",T+"io/emtfxml/metadata/data.py",T+"io/emtfxml/metadata/helpers.py"],
 [("EMTF XML writer and reader",T+"io/emtfxml/emtfxml.py:EMTFXML.write,EMTFXML.read"),("per-period data blocks",T+"io/emtfxml/metadata/data.py"),("conversion to and from the common object",T+"core.py:to_emtfxml,from_emtfxml")])
p("C04","A transfer function survives being saved as a z-file",
 "A transfer function written to an EMTF z-file and read back by a later process in the coordinates it was written in has the same station name, position, periods, transfer functions, inverse signal power and residual covariance, to the digits the format prints, for impedance only, tipper only and both. This holds for every chain of saves and loads, and also when an earlier save was cut off by a crash or a full disk and then repeated.",
 ["inputs","histories","crash_points","fault_sequences"],
 "all transfer functions with covariances and periods the format can express, all channel sets, all chains of save and load, all crash points and disk faults in earlier saves",
 "Tests read one z-file and one tipper file and compare with recorded values; no generated values, no chains and no crashed saves.",
 [T+"core.py",T+"io/zfiles/zmm.py",T+"io/zfiles/metadata/channel.py"],
 [("z-file writer and reader",T+"io/zfiles/zmm.py:ZMM.write,ZMM.read"),("channel order and numbering",T+"io/zfiles/zmm.py:ZMMHeader"),("conversion to and from the common object",T+"core.py:to_zmm,from_zmm")])
p("C05","A saved experiment comes back complete",
 "An experiment saved as JSON or XML and loaded by a later process has the same surveys, stations, runs, channels and filters, under the same names and in the same places, with every value that was set on any of them. This holds after any history of additions, changes and removals, for experiments of any shape (including empty levels, single members and several members), for repeated save and load in any mixture of the two formats, and after a crash during an earlier save that is then repeated.",
 ["inputs","histories","crash_points"],
 "all experiments and all histories of edits, saves, loads and crashes",
 "Tests save and load a handful of hand-made experiments once; shape (one or several filters, empty runs), history and crash are not varied.",
 [TS+"experiment.py",TS+"survey.py",TS+"station.py",TS+"run.py",B+"base/helpers.py"],
 [("dictionary, JSON and XML conversion of the hierarchy",TS+"experiment.py:to_dict,from_dict,to_json,from_json,to_xml,from_xml"),("element and dictionary conversion",B+"base/helpers.py:dict_to_xml,element_to_dict")])
p("C06","Every metadata object survives being saved and loaded",
 "For every kind of metadata object, saving it as a dictionary, JSON text, a JSON file, XML or a series and loading that into a fresh object gives back every value that was set, with its type. Saving does not change the object, and saving the loaded object again gives the same text.",
 ["inputs","histories"],
 "all metadata classes, all combinations of settable values, all sequences of saves and loads in mixed formats",
 "Tests check default values and single examples per class; values are not combined and the formats are not chained.",
 [B+"base/metadata.py",B+"base/helpers.py",B+"common/mttime.py"],
 [("conversion to and from dictionaries",B+"base/metadata.py:to_dict,from_dict"),("JSON, XML and series conversion",B+"base/metadata.py:to_json,from_json,to_xml,from_xml,to_series,from_series")])
p("C07","A failed save is reported and harms nothing else",
 "If the disk fails or fills up, or the target cannot be opened, while any kind of file is being saved, the call raises an error instead of reporting success. The object being saved is unchanged, no file other than the target has changed, and saving again once the disk works gives byte for byte the file a fault-free save gives.",
 ["fault_sequences","crash_points","inputs"],
 "every file operation of every kind of save, every error the disk can report there, and every sequence of failed attempts before the successful one",
 "Tests write to a disk that works; no test fails a file operation.",
 [T+"core.py",T+"io/edi/edi.py",T+"io/emtfxml/emtfxml.py",T+"io/zfiles/zmm.py",TS+"experiment.py",B+"base/metadata.py"],
 [("file writers",T+"io/edi/edi.py:EDI.write"),("file writers",T+"io/emtfxml/emtfxml.py:EMTFXML.write"),("file writers",T+"io/zfiles/zmm.py:ZMM.write"),("file writers",TS+"experiment.py:to_xml,to_json")])
p("C08","A damaged file is refused or read truthfully",
 "Reading a transfer function or experiment file that was cut short at any byte, whose tail was lost or zero-filled by a crash, or that fails while it is read, ends after a bounded amount of work. Either the read raises an error, or every data value and period it returns is one the intact file has at that place or is marked as missing (zero or not a number), except for the number the cut went through; XML and JSON files that lost any element are always refused.",
 ["crash_points","fault_sequences","inputs"],
 "every cut point and torn tail of every supported file, and every read error",
 "Tests read intact files and a few hand-broken ones; cut points are not enumerated and termination is not asserted.",
 [T+"io/edi/edi.py",T+"io/emtfxml/emtfxml.py",T+"io/zfiles/zmm.py",T+"io/jfiles/jfile.py",T+"io/zonge/zonge.py",TS+"experiment.py"],
 [("file readers",T+"io/edi/edi.py:EDI.read"),("header and period-block scan",T+"io/zfiles/zmm.py:read_header,read"),("file readers",T+"io/jfiles/jfile.py:JFile.read")])
p("C09","Reading changes no file, saving changes one",
 "Reading any supported file changes, creates and removes no file, apart from the library's own cache directory. Saving creates or replaces exactly the file that was asked for and nothing else, and saving to the same name twice leaves exactly the second content, whatever was there before.",
 ["histories","inputs","configurations"],
 "all sequences of reads and saves of all formats in a directory with other files, with any prior content under the target name",
 "Tests look at the file they wrote, not at the rest of the directory or at what was there before.",
 [T+"core.py",T+"io/edi/edi.py",T+"io/emtfxml/emtfxml.py",T+"io/zfiles/zmm.py",TS+"experiment.py",B+"base/metadata.py"],
 [("choice of the output path",T+"core.py:write"),("file readers and writers",T+"io/edi/edi.py:read,write")])
p("C10","Independent work does not interfere",
 "Objects that were created independently share nothing: whatever is done to one (changed, filled, read from a file, saved, copied, deleted), every other reads the same before and after. Tasks that work on their own objects and files give, under every interleaving of their threads, the results and the files each gives when run alone.",
 ["schedules","histories"],
 "all interleavings of concurrent reads, saves and edits of separate objects in one process, all histories of operations on separate objects",
 "Tests run one operation at a time on fresh objects; state leaking between objects through class-level defaults or between threads is invisible to them.",
 [B+"base/metadata.py",B+"base/helpers.py",B+"base/pydantic_helpers.py",B+"common/list_dict.py",T+"core.py",T+"io/edi/edi.py",T+"io/emtfxml/emtfxml.py",T+"io/zfiles/zmm.py",TS+"run.py",TS+"station.py",TS+"survey.py"],
 [("default factories instead of shared defaults",B+"base/metadata.py"),("instance attributes set in constructors",T+"core.py:TF.__init__")])
p("C11","Elevation lookup survives the network",
 "Asking the elevation service always returns a number and never raises, whatever the network does: no connection, lost or slow connection, cut or garbled replies, error pages, replies of the wrong shape. When the service answers with a number that number is returned, when it does not the answer is zero, and a failed lookup has no influence on the next one.",
 ["fault_sequences","histories","inputs"],
 "all sequences of lookups and all failures and replies of the service",
 "Tests replace the connection by a mock with a few replies; failures while the reply is being read and replies of unexpected shape are not covered.",
 [T+"io/tools.py"],
 [("lookup with fallback to zero",T+"io/tools.py:get_nm_elev")])
p("C12","Containers agree with their history",
 "After any history of adding, inserting by index or name, replacing, renaming, merging, popping, removing, sorting and rejected operations on runs, stations, surveys, experiments and keyed lists, exactly the members the history implies are present, under the right names and in the right order, each findable by name and by position, and lists of names and counts agree with them. A rejected operation changes nothing.",
 ["histories","inputs"],
 "all histories of operations, accepted and rejected, on all containers",
 "Tests apply one or two operations to a fixed container; longer histories with removals, re-additions and rejected operations are not explored.",
 [TS+"run.py",TS+"station.py",TS+"survey.py",TS+"experiment.py",B+"common/list_dict.py"],
 [("keyed list",B+"common/list_dict.py:ListDict"),("member management",TS+"run.py:add_channel,remove_channel"),("member management",TS+"station.py:add_run,remove_run"),("member management",TS+"survey.py:add_station,remove_station")])
p("C13","The order of arrival does not change the outcome",
 "Building a survey, station or run from the same members in any order, with members delivered in any number of pieces, gives the same members, the same overall time span and the same bounding box, equal to those computed from the members directly. A data set assembled from files does not depend on the order in which the directory lists them.",
 ["schedules","histories","inputs"],
 "all orders and groupings in which members are delivered, all orders of directory listings",
 "Tests add members in one fixed order on one file system, whose listing order never changes.",
 [TS+"survey.py",TS+"station.py",TS+"run.py",TS+"tools/from_many_mt_files.py"],
 [("time span from members",TS+"run.py:update_time_period"),("time span and bounding box from members",TS+"survey.py:update_time_period,update_bounding_box"),("collection of files",TS+"tools/from_many_mt_files.py")])
p("C14","The clock and the environment show only in time stamps",
 "The current time, wherever the library records it, is the system clock in UTC at that moment, for every clock value, clock jump and local time zone. Everything else in what is read or written is independent of the clock, the time zone, the hash seed and the order in which work was done before.",
 ["configurations","histories","fault_sequences"],
 "all clock values and jumps, all time zones, all hash seeds",
 "Tests run at one clock, in one time zone, and with one hash seed per run, and never compare two runs.",
 [B+"common/mttime.py",T+"core.py",T+"io/edi/metadata/header.py",T+"io/emtfxml/emtfxml.py"],
 [("current time",B+"common/mttime.py:get_now_utc,MTime.now"),("time stamps in written files",T+"io/edi/metadata/header.py")])
p("C15","A copy is equal and independent",
 "A copy of a metadata object, container or transfer function equals its original when it is made. From then on whatever happens to one of the two, at any depth, leaves the other as it was.",
 ["histories","inputs"],
 "all objects, all histories of changes to copy and original at every depth",
 "Tests copy default objects and check equality; changes at depth after the copy are not explored.",
 [B+"base/metadata.py",B+"common/list_dict.py",T+"core.py",TS+"run.py",TS+"station.py",TS+"survey.py"],
 [("deep copy",B+"base/metadata.py:copy"),("deep copy",B+"common/list_dict.py:__deepcopy__"),("deep copy",T+"core.py:__deepcopy__,copy")])
p("C16","An experiment survives StationXML",
 "An experiment written to a StationXML file and read back by a later process has the same surveys, stations, runs and channels with the same positions, orientations, sample rates, time spans and filters. This holds for any number of surveys, stations, runs and channels and for repeated conversion.",
 ["inputs","histories","crash_points"],
 "all experiments StationXML can express, all chains of conversions, crashes during an earlier save",
 "Tests convert a few sample experiments once and compare selected fields.",
 [TS+"stationxml/xml_inventory_mt_experiment.py",TS+"stationxml/xml_station_mt_station.py",TS+"stationxml/xml_channel_mt_channel.py",TS+"stationxml/xml_network_mt_survey.py"],
 [("conversion in both directions",TS+"stationxml/xml_inventory_mt_experiment.py:mt_to_xml,xml_to_mt")])
p("C17","What is set is what is read",
 "On every metadata object, after any history of assignments by attribute, by dotted name or in bulk, reading a field by any route gives the value last accepted for it, in the field's type. A rejected assignment raises an error and leaves every field of the object as it was.",
 ["histories","inputs"],
 "all classes, all histories of accepted and rejected assignments by every route",
 "Tests assign one value to one field of a new object; sequences that mix routes, rejected values and nested fields are not explored.",
 [B+"base/metadata.py",B+"base/helpers.py"],
 [("dotted access",B+"base/metadata.py:get_attr_from_name,set_attr_from_name,update_attribute"),("validation on assignment",B+"base/metadata.py:__setattr__")])
p("C18","A transfer function object agrees with its history",
 "After any history of setting periods, impedance, tipper, their errors and covariances, saving, merging, copying and rejected assignments on a transfer function object, reading each of them gives the value last accepted, at the right period and channel, whatever names the channels go by. A rejected assignment changes nothing, and presence queries agree with what was set.",
 ["histories","inputs"],
 "all histories of accepted and rejected assignments and queries, all channel naming schemes",
 "Tests set one quantity on a new object; histories that mix them, alternative channel names and rejected assignments are not explored.",
 [T+"core.py"],
 [("data set behind the object",T+"core.py:_set_data_array,_initialize_transfer_function"),("errors from covariances",T+"core.py:_compute_error_from_covariance")])
p("C19","Processing configurations and channel filters agree with their history",
 "After any history of adding, changing, removing, assigning, refused and reloaded filters of a channel, decimation levels, bands, stations and runs of a processing configuration, and levels and channels of a set of Fourier coefficients, every list, count, look-up, band edge, stage and time span agrees with what was accepted. Saving changes nothing and gives back what the saved form holds.",
 ["histories","inputs","fault patterns"],
 "all histories of operations on processing configurations, Fourier coefficient sets and channel filters, with saves and loads",
 "Tests build one configuration and look at one part of it; sequences of additions, refusals, removals and reloads are not explored.",
 [B+"processing/aurora/processing.py",B+"processing/aurora/station.py",B+"processing/aurora/stations.py",B+"processing/aurora/decimation_level.py",B+"processing/fourier_coefficients/fc.py",B+"processing/fourier_coefficients/decimation.py",TS+"channel.py",B+"common/band.py"],
 [("levels and bands",B+"processing/aurora/processing.py:add_decimation_level,assign_bands"),("stations as a table",B+"processing/aurora/stations.py:from_dataset_dataframe"),("filters in stages",TS+"channel.py:add_filter,remove_filter")])
p("N01","Instrument responses are evaluated correctly",
 "The complex response of a channel equals the product of the responses of its filters at every frequency, and a filter's response follows from its coefficients.",
 ["inputs"],"all filters and frequencies",
 "Tests sample a few filters and frequencies.",
 [TS+"filters/channel_response.py",TS+"filters/filter_base.py"],
 [("response evaluation",TS+"filters/channel_response.py:complex_response")])
p("N02","Dates are parsed to the right instant",
 "Every date text in a supported layout is parsed to the instant it denotes, in UTC, to the nanosecond.",
 ["inputs"],"all date texts",
 "Tests sample date texts.",
 [B+"common/mttime.py"],[("parser",B+"common/mttime.py:parse")])
p("N03","Angles and units convert without loss",
 "Converting a position between degrees-minutes-seconds and decimal degrees and a unit between its name and symbol gives the same position and unit.",
 ["inputs"],"all positions and units",
 "Tests sample positions and units.",
 [B+"utils/converters.py",B+"utils/validators.py",B+"common/units.py"],[("converters",B+"utils/validators.py:validate_latitude")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
