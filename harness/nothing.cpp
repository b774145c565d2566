// nothing: the program under test has its own main
