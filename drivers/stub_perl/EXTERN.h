// stands in for the Perl headers: the Perl entry point is not under test
