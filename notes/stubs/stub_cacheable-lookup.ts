export default class { install() {} }
