package fam

import "mc/eng"

// By returns tables that have nothing to do with any family, in the form the server reports them.
func By(system string) eng.Bystander {
	switch system {
	case "mysql":
		first := "CREATE TABLE `0by` (\n  `id` int(11) NOT NULL,\n  `z` varchar(20) DEFAULT 'q',\n  PRIMARY KEY (`id`),\n  KEY `zk` (`z`)\n) ENGINE=InnoDB DEFAULT CHARSET=latin1;\n"
		last := func(col, key string) string {
			return "CREATE TABLE `zzby` (\n  `id` int(11) NOT NULL,\n  `by_id` int(11) DEFAULT NULL,\n" + col + "  PRIMARY KEY (`id`),\n  KEY `zzkey` (`by_id`),\n" + key + "  CONSTRAINT `zzfk` FOREIGN KEY (`by_id`) REFERENCES `0by` (`id`) ON DELETE CASCADE\n) ENGINE=InnoDB DEFAULT CHARSET=latin1;\n"
		}
		return eng.Bystander{First: first, Last: last("", ""), Mark: "zzby", Changed: []string{
			last("  `new` varchar(20) DEFAULT 'n',\n", ""),
			last("", "  UNIQUE KEY `zznew` (`id`, `by_id`),\n"),
			"CREATE TABLE `zzby` (\n  `id` bigint(20) NOT NULL,\n  `by_id` int(11) DEFAULT NULL,\n  KEY `zzkey` (`by_id`)\n) ENGINE=InnoDB DEFAULT CHARSET=latin1;\n",
		}}
	case "postgres":
		first := "CREATE TABLE aby (\n  id integer NOT NULL,\n  z varchar(20) DEFAULT 'q',\n  PRIMARY KEY (id)\n);\nCREATE INDEX zk ON aby USING btree (z);\n"
		last := func(col, more string) string {
			return "CREATE TABLE zzby (\n  id integer NOT NULL,\n  by_id integer" + col + ",\n  PRIMARY KEY (id)\n);\nCREATE INDEX zzkey ON zzby USING btree (by_id);\n" + more
		}
		fk := "ALTER TABLE ONLY zzby ADD CONSTRAINT zzfk FOREIGN KEY (by_id) REFERENCES aby (id) ON DELETE CASCADE;\n"
		return eng.Bystander{First: first, Last: last("", fk), Mark: "zzby", Changed: []string{
			last(",\n  new varchar(20) DEFAULT 'n'", fk),
			last("", fk+"CREATE UNIQUE INDEX zznew ON zzby (id, by_id);\n"),
			"CREATE TABLE zzby (\n  id bigint NOT NULL,\n  by_id integer DEFAULT 3\n);\nCREATE INDEX zzkey ON zzby (by_id);\n",
		}}
	case "sqlite":
		return eng.Bystander{First: "CREATE TABLE \"0by\" (id integer PRIMARY KEY, z text DEFAULT 'q');\n", Last: "CREATE TABLE zzby (id integer PRIMARY KEY, z text);\n", Mark: "zzby", Changed: []string{
			"CREATE TABLE zzby (id integer PRIMARY KEY, z text, n text DEFAULT 'n');\n",
			"CREATE TABLE zzby (id integer PRIMARY KEY);\n",
		}}
	}
	return eng.Bystander{}
}
