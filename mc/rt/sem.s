// lets sched.go declare functions without a body
