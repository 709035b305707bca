-- Stand-in for the parts of VUnit that en_tb_base_pkg needs to compile (its check_equal wrappers are not under test).
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
package check_pkg is
    type checker_t is record
        id : integer;
    end record;
    procedure check_equal(checker : checker_t; got, expected : std_logic_vector; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : unsigned; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : signed; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : integer; msg : string := "");
    procedure check_equal(got, expected : std_logic_vector; msg : string := "");
    procedure check_equal(got, expected : unsigned; msg : string := "");
    procedure check_equal(got, expected : signed; msg : string := "");
    procedure check_equal(got, expected : integer; msg : string := "");
end package;
package body check_pkg is
    procedure check_equal(checker : checker_t; got, expected : std_logic_vector; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : unsigned; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : signed; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : integer; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(got, expected : std_logic_vector; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(got, expected : unsigned; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(got, expected : signed; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
    procedure check_equal(got, expected : integer; msg : string := "") is
    begin
        assert got = expected report msg severity error;
    end procedure;
end package body;
context vunit_context is
    library vunit_lib;
        use vunit_lib.check_pkg.all;
end context;
