from prophelp import prop
F = 'SEFramework/SEFramework/'
L = 'SEFramework/src/lib/'
P = prop("P01", "A property is computed once, on demand, and again after its group changed",
 "Whatever the order of requests, settings and changes of membership: a property that was set is returned as set; one that was not is computed by its task exactly once per object and then kept; one nobody can provide raises PropertyNotFoundException; properties of a group and those its tasks gave to the members are forgotten when a source joins or leaves or a group is merged, and recomputed for the members of that moment; each identifier (type and index) is its own property, and no property or source is lost, duplicated or leaked.",
 ["histories"], "All histories of operations up to the bound",
 "Whether a stale group measurement survives depends on the order of requests and merges; tests try one order.",
 [F + "Property/PropertyId.h", F + "Property/PropertyHolder.h", L + "Property/PropertyHolder.cpp", F + "Source/SourceInterface.h", F + "Source/SourceGroupInterface.h", L + "Source/SourceWithOnDemandProperties.cpp", L + "Source/SourceGroupWithOnDemandProperties.cpp", L + "Source/EntangledSource.cpp", L + "Source/SimpleSourceGroup.cpp", L + "Task/TaskProvider.cpp", F + "Task/TaskFactoryRegistry.h"],
 [("getProperty on demand", "SourceWithOnDemandProperties.cpp"), ("clearGroupProperties", "SourceGroupWithOnDemandProperties.cpp"), ("EntangledSource::getProperty", "EntangledSource.cpp")],
 ["getProperty values, number of task runs, group members"])
TECHNIQUE = "bounded exhaustive enumeration of operation histories on the real classes against a reference model"
NOTE = "All histories of up to 6 (7) operations."
