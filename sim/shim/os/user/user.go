package user

import real "os/user"

func Current() (*real.User, error) {
	return &real.User{Uid: "1000", Gid: "1000", Username: "user", Name: "user", HomeDir: "/home/user"}, nil
}
