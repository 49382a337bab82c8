exec(open("/verif/tools/seeds/common.py").read())
seeds=[
 seed("c21-millis", "C21", [(L, "            .map_err(|_| \"invalid date\")?\n            .timestamp();", "            .map_err(|_| \"invalid date\")?\n            .timestamp_millis() / 1000;")],
  "a date before 1970 with a fraction of a second", "the parsed timestamp is one second later than the text it was parsed from",
  'let s = "1969-12-31T23:59:58.5Z"; assert_eq!(TimestampFormat::from_str(s).unwrap(), TimestampFormat::ISOString(s.to_string())); assert_eq!(TimestampFormat::from_str(s).unwrap().to_epoch_number(), -2);'),
 seed("c21-from-narrow", "C21", [(L, "        TimestampFormat::EpochNumber(v.into())", "        TimestampFormat::EpochNumber((v.into() as u32).into())")],
  "a number of seconds before 1970 or after 2106", "the timestamp wraps around",
  'assert_eq!(TimestampFormat::from(-1i64).to_epoch_number(), -1); assert_eq!(TimestampFormat::from(5_000_000_000i64).to_epoch_number(), 5_000_000_000);'),
 seed("c21-epoch-clamp", "C21", [(L, "            &TimestampFormat::EpochNumber(t) => t,\n        }\n    }\n\n    /// What", "            &TimestampFormat::EpochNumber(t) => t.max(0),\n        }\n    }\n\n    /// What")],
  "a timestamp before 1970", "its number of seconds is reported as 0",
  'assert_eq!(TimestampFormat::EpochNumber(-5).to_epoch_number(), -5);'),
]
