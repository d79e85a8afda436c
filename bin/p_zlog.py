prop("C08", title="Log files keep columns and rows together",
  statement="Each line of a log lists the registered and enabled items in registration order, headers and values having the same number of columns for each item, and nothing is written while the log is disabled; a log created disabled writes no file at all. Settings files are saved with the log exactly when asked for, once each, into its directory and nowhere else.",
  over=["histories", "configurations"], qtext="all sequences of registration, switching and writing, and every loggable item of the library the harness can build",
  why=TESTS + "Column shifts arise from particular combinations of items and switches.",
  files=["src/logger/logger.cpp", "src/logger/log_utility.hpp"], mech=[("lines", "Logger::WriteHeaders, WriteValues"), ("files", "Logger constructor, CopyFileToLogDirectory"), ("titles", "WriteScalar, WriteVector, WriteMatrix, WriteQuaternion")],
  observe=["log file contents; directory contents; headers and values of the library's loggable items"],
  note="Exhaustive over sequences of up to 5 (6) logger operations; random longer ones.",
  parts=[dict(_FI, ops=["log", "add", "clear", "flag", "enable", "copy", "head", "vals", "close", "title"], groups=[mc(({"Fam": 3, "Deep": 5}, {"Fam": 3, "Deep": 6}), limit=(1500, 6000)), gen("random", _log_random)])])
